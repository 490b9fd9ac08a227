"""C37: queries change nothing, copies share nothing, documented sharing, time labels, reference counts."""
import ctypes, gc, copy, itertools
from common import *
from ref import *
import gen, fields, constmeth
from specs import AK, mk_array, dump_array, rnd_array, rnd_mesh, mk_mesh, dump_mesh, dump_locs, dump_field, dump_amr, rnd_amr, tmpl_dump
from fields import Fld, field, DISC, TD, CLS

ASSUMPTIONS = ['queries are the const methods of the C++ classes, called with generated valid arguments; a call that throws must leave the operands unchanged as well']


def good_mesh(d):
    """a mesh on which most queries make sense"""
    k = d.weighted([(6, 'u'), (2, 'c'), (2, 'i'), (2, 'cl'), (3, 's'), (2, 'd'), (1, 'e')])
    if k in 'cicl' and k != 'cl':
        md = d.int(1, 3)
        ax = [gen.incr(d, d.int(2, 4)) for _ in range(md)]
        if k == 'c':
            m = mc.MEDCouplingCMesh('m')
            for i, a in enumerate(ax):
                m.setCoordsAt(i, mc.DataArrayDouble(a))
        else:
            m = mc.MEDCouplingIMesh('m', md, [len(a) for a in ax], [a[0] for a in ax], [.5] * md)
    elif k == 'cl':
        st = [d.int(2, 3) for _ in range(d.int(1, 3))]
        c = mc.MEDCouplingCMesh()
        for i, n in enumerate(st):
            c.setCoordsAt(i, mc.DataArrayDouble([.5 * x for x in range(n)]))
        m = mc.MEDCouplingCurveLinearMesh('m')
        m.setCoords(c.getCoordinatesAndOwner())
        m.setNodeGridStructure(st)
    elif k == 'e':
        pm = gen.mesh2d(d, 2)
        m2 = to_mc(pm)
        m2.changeSpaceDimension(3)
        n = d.int(2, 3)
        m1 = mc.MEDCouplingUMesh('l', 1)
        m1.setCoords(Dbl([(0., 0., .5 * i) for i in range(n + 1)], 3))
        m1.allocateCells()
        for i in range(n):
            m1.insertNextCell(SEG2, [i, i + 1])
        m3 = m2.buildExtrudedMesh(m1, 0)
        m = mc.MEDCouplingMappedExtrudedMesh(m3, m2, 0)
    else:
        pm = gen.any_mesh(d, nmax=2, quad=.2 if k == 'u' else 0., surf=.3)
        m = to_mc(pm)
        if k == 's':
            if len({t for t, c in pm.cells}) > 1 or pm.cells[0][0] in (POLYGON, QPOLYG, POLYHED):
                t = [t for t, c in pm.cells if t not in (POLYGON, QPOLYG, POLYHED)]
                d.assume(t)
                m = mc.MEDCoupling1SGTUMesh(m.buildPartOfMySelf(I([i for i, x in enumerate(pm.cells) if x[0] == t[0]])))
            else:
                m = mc.MEDCoupling1SGTUMesh(m)
        elif k == 'd':
            m = mc.MEDCoupling1DGTUMesh(all_poly(m))
    m.setName(d.choice(['', 'mesh']))
    m.setTime(d.sint(8) / 4., 1, 2)
    return m


def all_poly(m):
    m = m.deepCopy()
    if m.getMeshDimension() == 1:
        c = mc.MEDCouplingUMesh('p', 1)
        c.setCoords(m.getCoords())
        c.allocateCells()
        for i in range(m.getNumberOfCells()):
            c.insertNextCell(POLYL, m.getNodeIdsOfCell(i))
        return c
    m.convertQuadraticCellsToLinear()
    m.convertAllToPoly()
    return m


LOCS = {SEG2: ([-1., 1.], [-.5, .5], [1., 1.]), TRI3: ([0., 0., 1., 0., 0., 1.], [.25, .25], [.5]),
        QUAD4: ([-1., -1., 1., -1., 1., 1., -1., 1.], [.1, .2, -.3, .5], [2., 2.]),
        TETRA4: ([0., 1., 0., 0., 0., 1., 0., 0., 0., 1., 0., 0.], [.25, .25, .25], [1 / 6.])}


def rnd_obj(d):
    k = d.weighted([(4, 'a'), (6, 'm'), (5, 'f'), (1, 'amr'), (1, 'sky'), (1, 'mat'), (1, 't')])
    if k == 'a':
        return mk_array(rnd_array(d))
    if k == 'm':
        return good_mesh(d)
    if k == 'amr':
        dims = d.int(1, 3)
        cells = [d.int(2, 5) for _ in range(dims)]
        m = mc.MEDCouplingCartesianAMRMesh('amr', dims, [c + 1 for c in cells], [0.] * dims, [1.] * dims)
        rnd_amr(d, m, cells, 1)
        return m
    if k == 'sky':
        n = d.int(1, 4)
        cnt = [d.int(0, 4) for _ in range(n)]
        idx = [sum(cnt[:i]) for i in range(n + 1)]
        return mc.MEDCouplingSkyLineArray(I(idx), I([d.below(20) for _ in range(idx[-1])]))
    if k == 'mat':
        n = d.int(1, 4)
        m = mc.DenseMatrix(mc.DataArrayDouble([d.sint(8) / 2. for _ in range(n * n)]), n, n)
        return m
    if k == 't':
        t = mc.MEDCouplingFieldTemplate(d.choice([mc.ON_CELLS, mc.ON_NODES]))
        t.setMesh(good_mesh(d))
        return t
    m = good_mesh(d)
    disc = d.choice([mc.ON_CELLS, mc.ON_CELLS, mc.ON_NODES, mc.ON_GAUSS_NE, mc.ON_GAUSS_PT])
    if disc == mc.ON_GAUSS_PT and (not isinstance(m, mc.MEDCouplingUMesh) or not set(m.getAllGeoTypes()) <= set(LOCS)):
        disc = mc.ON_NODES
    if disc == mc.ON_GAUSS_NE and not isinstance(m, mc.MEDCouplingUMesh):
        disc = mc.ON_CELLS
    td = d.choice([mc.ONE_TIME, mc.ONE_TIME, mc.NO_TIME, mc.LINEAR_TIME, mc.CONST_ON_TIME_INTERVAL])
    kind = d.weighted([(6, 'd'), (1, 'i'), (1, 'f')])
    if kind == 'd':
        f = mc.MEDCouplingFieldDouble(disc, td)
    else:
        td = mc.ONE_TIME
        f = (mc.MEDCouplingFieldInt64 if kind == 'i' else mc.MEDCouplingFieldFloat)(disc, td)
    f.setMesh(m)
    f.setName('f')
    if disc == mc.ON_GAUSS_PT:
        for t in m.getAllGeoTypes():
            rc, gc_, w = LOCS[t]
            f.setGaussLocalizationOnType(t, rc, gc_, w)
    try:
        n = f.getNumberOfTuplesExpected()
    except InterpKernelException:
        raise Discard()
    nc = d.choice([1, 1, 2, 3, 6])
    arrs = []
    for _ in range(1 + (td == mc.LINEAR_TIME)):
        a = {'d': mc.DataArrayDouble, 'i': mc.DataArrayInt64, 'f': mc.DataArrayFloat}[kind]
        if kind == 'f':
            a = a(np.array([d.int(1, 40) / 8. for _ in range(n * nc)], dtype=np.float32)).deepCopy()
            a.rearrange(nc)
        else:
            a = a([d.int(1, 40) / (8. if kind == 'd' else 1) if kind == 'd' else d.int(1, 40) for _ in range(n * nc)], n, nc)
        arrs.append(a)
    f.setArray(arrs[0])
    if td == mc.LINEAR_TIME:
        f.setEndArray(arrs[1])
    if td == mc.ONE_TIME:
        f.setTime(1.5, 2, 3)
    elif td in (mc.LINEAR_TIME, mc.CONST_ON_TIME_INTERVAL):
        f.setStartTime(1., 1, -1)
        f.setEndTime(2., 2, -1)
    if kind == 'd' and disc == mc.ON_CELLS:
        f.setNature(d.choice([mc.NoNature, mc.IntensiveMaximum, mc.ExtensiveConservation]))
    return f


def dump(o):
    k = type(o).__name__
    if k.startswith('DataArray'):
        return dump_array(o)
    if k.startswith('MEDCouplingField'):
        return tmpl_dump(o) if k.endswith('Template') else dump_field(o)
    if k == 'MEDCouplingCartesianAMRMesh':
        return dump_amr(o)
    if k == 'MEDCouplingSkyLineArray':
        return [L(o.getSuperIndexArray()), L(o.getIndexArray()), L(o.getValuesArray())]
    if k == 'DenseMatrix':
        return [o.getNumberOfRows(), o.getNumberOfCols(), L(o.getData())]
    return dump_mesh(o)


def parts_of(o):
    """objects owned, directly or not, by o"""
    k = type(o).__name__
    r = []
    if k.startswith('MEDCouplingField') and hasattr(o, 'getMesh'):
        if o.getMesh() is not None:
            r += [o.getMesh()] + parts_of(o.getMesh())
        if not k.endswith('Template'):
            r += [a for a in (o.getArrays() if hasattr(o, 'getArrays') else [o.getArray()]) if a is not None]
    elif k in ('MEDCouplingUMesh', 'MEDCoupling1SGTUMesh', 'MEDCoupling1DGTUMesh'):
        r += [o.getCoords(), o.getNodalConnectivity()]
        if k != 'MEDCoupling1SGTUMesh':
            r.append(o.getNodalConnectivityIndex())
    elif k == 'MEDCouplingCMesh':
        r += [o.getCoordsAt(i) for i in range(o.getSpaceDimension())]
    elif k == 'MEDCouplingCurveLinearMesh':
        r.append(o.getCoords())
    elif k == 'MEDCouplingMappedExtrudedMesh':
        for m in (o.getMesh2D(), o.getMesh1D()):
            r += [m] + parts_of(m)
        r.append(o.getMesh3DIds())
    elif k == 'DenseMatrix':
        r.append(o.getData())
    return r


def counts(o, ps):
    return [x.getRCValue() for x in [o] + ps if hasattr(x, 'getRCValue')]


def times(o, ps):
    return [x.getTimeOfThis() for x in [o] + ps if hasattr(x, 'getTimeOfThis')]


def size_of(o):
    k = type(o).__name__
    try:
        if k.startswith('DataArray'):
            return max(1, o.getNumberOfTuples())
        if k.startswith('MEDCouplingField'):
            return max(1, o.getMesh().getNumberOfCells())
        if k == 'MEDCouplingSkyLineArray':
            return max(1, o.getNumberOf())
        if k == 'DenseMatrix':
            return o.getNumberOfRows()
        if k == 'MEDCouplingCartesianAMRMesh':
            return max(1, o.getNumberOfPatches())
        return max(1, o.getNumberOfCells())
    except InterpKernelException:
        return 1


def arg(d, o, c, meth):
    n = size_of(o)
    k = type(o).__name__
    if c == 'n':
        return d.below(n)
    if c == 'e':
        return d.choice([1e-12, 1e-6, .1, 1.])
    if c == 'v':
        return d.choice([1, 2, 5, 50])
    if c == 'b':
        return d.bool()
    if c in 'iI':
        if 'enumber' in meth:
            return I(d.perm(n))
        v = sorted(d.subset(n)) or [0]
        return I(v) if c == 'I' or d.bool() else v
    if c == 'p':
        sd = 3
        if hasattr(o, 'getSpaceDimension'):
            sd = o.getSpaceDimension()
        elif hasattr(o, 'getMesh'):
            sd = o.getMesh().getSpaceDimension()
        elif hasattr(o, 'getNumberOfComponents'):
            sd = o.getNumberOfComponents()
        return [d.int(0, 4) / 4. for _ in range(sd)]
    if c == 'D':
        return Dbl([(.25, .5, .75)[:3]] * 2, 3) if k.startswith('DataArray') else Dbl([[.25] * o.getSpaceDimension()] if hasattr(o, 'getSpaceDimension') else [[.25]], o.getSpaceDimension() if hasattr(o, 'getSpaceDimension') else 1)
    if c == 's':
        return d.choice(['x', 'x+1', 'IVec*x', 'a'])
    if c == 'm':
        m = o if not hasattr(o, 'getMesh') else o.getMesh()
        return m.deepCopy() if d.bool() and hasattr(m, 'deepCopy') else m
    if c == 'O':
        if k == 'MEDCouplingCartesianAMRMesh':
            return o
        if not hasattr(o, 'deepCopy') or d.bool():
            return o
        r = o.deepCopy()
        if hasattr(o, 'getMesh'):
            r.setMesh(o.getMesh())
        return r
    if c == 'P':
        return [(d.int(0, 1), d.int(2, 3)) for _ in range(o.getSpaceDimension() if hasattr(o, 'getSpaceDimension') else 2)]
    if c == 't':
        ts = o.getAllGeoTypes() if hasattr(o, 'getAllGeoTypes') else [QUAD4]
        return d.choice(ts)
    if c == 'f':
        return d.choice([mc.ON_CELLS, mc.ON_NODES])
    if c == 'V':
        return [d.choice([1, 2, 5]) for _ in range(d.int(1, 2))]
    if c == 'c':
        return 'a'
    if c == 'B':
        return [(-.5 + d.int(0, 2) / 2., d.int(1, 4) / 2.) for _ in range(o.getSpaceDimension())]
    if c == 'N':
        return None
    if c == 'z':
        return 0
    if c == 'L':
        return n
    if c == 'w':
        return d.int(1, 2)
    if c == 'M':
        return o.buildPartOfMySelf(I([d.below(n)]), True)
    if c == 'H':
        d.assume(o.getNumberOfPatches())
        return o[d.below(n)].getMesh()
    if c == 'F':
        d.assume(o.getNumberOfPatches())
        return mc.DataArrayDouble(list(range(o.getNumberOfCellsAtCurrentLevel())))


# names shared with a non const overload, or that write files
SKIP = set('updateTime declareAsNew forceTimeOfThis incrRef decrRef getRCValue writeVTK writeVTKAdvanced writeVTKLL aggregate '
           'changeNbOfComponents convertQuadraticCellsToLinear buildNewNumberingFromCommonNodesFormat findIdsRangesInListOfIds fillFromAnalytic fillFromAnalyticCompo invertArrayO2N2N2OBis resizeForUnserialization'.split())
FORCE = []
# better arguments than those deduced from the C++ prototypes
OVER = {'areInfoEqualsIfNotWhy': 'O', 'asArcOfCircle': '-', 'copySorted': '-', 'getSlice': 'nvv', 'findIdForEach': 'i', 'findIdsEqualTuple': 'V', 'findIdsEqualList': 'V',
        'findIdsNotEqualList': 'V', 'getMaxAbsValue': '-', 'splitByValueRange': 'V', 'transformWithIndArrR': 'i', 'buildPartOfMySelfSlice': 'nvvb', 'getCellsInBoundingBox': 'Be',
        'explodeMeshTo': '-', 'getValueOnMulti': 'D', 'isEqualWithoutConsideringStr': 'Oe Oee O', 'isEqual': 'Oe Oee O', 'applyFuncCompo': 'nsb', 'findCellIdsLyingOn': 'M', 'deepCopy': '- N',
        'getCellIdsHavingGaussLocalization': 'z', 'getGaussLocalization': 'z', 'getGaussLocalizationIdOfOneType': 't', 'getGaussLocalizationIdsOfOneType': 't', 'getGaussLocalizationIdOfOneCell': 'n',
        'renumberAndReduce': 'iL', 'buildPartRange': 'nvw', 'buildPartRangeAndReduceNodes': 'nvw', 'buildSubPartRange': 'nvw', 'getPatchIdFromChildMesh': 'H', 'createCellFieldOnPatch': 'zF'}


def adump(x):
    if type(x).__name__.startswith('MEDCouplingCartesianAMR') and not type(x).__name__.endswith('AMRMesh'):
        return None
    return dump(x) if type(x).__module__ == 'medcoupling' or type(x).__name__.startswith('MEDCoupling') else repr(x)


def args_of(d, o, meth, spec):
    ks = d.choice(OVER.get(meth, spec).split())
    return [] if ks == '-' else [arg(d, o, c, meth) for c in ks]



def call(d, o, meth, spec, args=None):
    if args is None:
        args = args_of(d, o, meth, spec)
    f = getattr(o, meth)
    try:
        r = f(*args)
        return args, r, None
    except (InterpKernelException, ValueError, NotImplementedError, TypeError, OverflowError, IndexError, AttributeError) as e:
        return args, None, '%s %s' % (type(e).__name__, str(e)[:80])


@check(n=80000, rule='a query that returned')
def pure(d):
    o = rnd_obj(d)
    cls = type(o).__name__
    tab = constmeth.T[cls]
    meth = d.choice(FORCE or sorted(tab))
    if meth in SKIP or not hasattr(o, meth):
        raise Discard()
    ps = parts_of(o)
    d0 = dump(o)
    if hasattr(o, 'updateTime'):
        o.updateTime()
    t0 = times(o, ps)
    c0 = counts(o, ps)
    d.sample('%s.%s' % (cls, meth))
    for _ in range(3):
        args = args_of(d, o, meth, tab[meth])
        ad = [adump(x) for x in args]
        args, r, err = call(d, o, meth, tab[meth], args)
        if err is None:
            break
    what = '%s.%s' % (cls, meth)
    if [adump(x) for x in args] != ad:
        d.fail('%s(%s) changed its arguments' % (what, short(args)))
    if dump(o) != d0:
        d.fail('%s(%s) changed its object' % (what, short(args)))
    if hasattr(o, 'updateTime'):
        o.updateTime()
    t1 = times(o, ps)
    d.check(t1 == t0, '%s(%s) moved the time labels: %s -> %s' % (what, short(args), t0, t1))
    del r, args
    c1 = counts(o, ps)
    d.check(c1 == c0, '%s: reference counts %s -> %s after the release of the result (%s)' % (what, c0, c1, err))
    d.nontrivial(err is None)
    if err is None:
        d.label(what)


# ---------------------------------------------------------------- leaks
class _MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = _MI


def heap():
    m = _libc.mallinfo2()
    return m.uordblks + m.hblkhd


@check(n=40000, rule='the query returned')
def leak(d):
    """calling a query again and again, its result being released, does not consume memory"""
    o = rnd_obj(d)
    cls = type(o).__name__
    tab = constmeth.T[cls]
    meth = d.choice(FORCE or sorted(tab))
    if meth in SKIP or not hasattr(o, meth):
        raise Discard()
    d.sample('%s.%s' % (cls, meth))
    args = args_of(d, o, meth, tab[meth])
    r, err = call(d, o, meth, tab[meth], args)[1:]
    r = None
    n = 15
    for _ in range(2):
        call(d, o, meth, tab[meth], args)
    low = []
    for _ in range(4):
        h = heap()
        for _ in range(n):
            call(d, o, meth, tab[meth], args)
        low.append(heap() - h)
        if low[-1] < 16 * n or err is not None:
            break
    else:
        d.fail('%s.%s(%s)%s: %s bytes lost in series of %d calls' % (cls, meth, short(args), ' ' + err if err else '', low, n))
    d.nontrivial(err is None)
    d.label('%s.%s' % (cls, meth))


# ---------------------------------------------------------------- results and copies are independent
def ptr(x):
    return x.getHiddenCppPointer()


def scribble(a):
    """overwrite the content of an array in place; False if it cannot be done"""
    k = type(a).__name__
    if not a.isAllocated() or a.getNbOfElems() == 0:
        return False
    if k == 'DataArrayDouble':
        a[:] = -77.5
    elif k == 'DataArrayFloat':
        a.toNumPyArray()[...] = -77.5
    elif k in ('DataArrayInt32', 'DataArrayInt64'):
        a[:] = -7
    elif k in ('DataArrayByte', 'DataArrayAsciiChar'):
        a.fillWithValue('z' if k[9] == 'A' else 7)
    else:
        return False
    return True


def arrays_of(x, depth=0):
    """every array reachable from a result"""
    k = type(x).__name__
    if isinstance(x, (tuple, list)):
        r = []
        for y in x[:20]:
            r += arrays_of(y, depth)
        return r
    if k.startswith('DataArray'):
        return [] if k.endswith('Tuple') else [x]
    if not k.startswith(('MEDCoupling', 'DenseMatrix')):
        return []
    if k == 'MEDCouplingSkyLineArray':
        return [x.getIndexArray(), x.getValuesArray()]
    return [y for y in parts_of(x) if type(y).__name__.startswith('DataArray')]


# serialize gives the very arrays of the discretization and the field, the skyline array its own parts: by design
GETTERS = {'serialize', 'getSuperIndexArray', 'getIndexArray', 'getValuesArray'}


@check(n=60000, rule='a result holding arrays that are not those of its source')
def results(d):
    """writing in the arrays of a result that are not those of the object never alters the object"""
    o = rnd_obj(d)
    cls = type(o).__name__
    tab = constmeth.T[cls]
    meth = d.choice(FORCE or sorted(tab))
    if meth in SKIP or not hasattr(o, meth):
        raise Discard()
    d.sample('%s.%s' % (cls, meth))
    own = arrays_of(o)
    mine = {ptr(a) for a in own if hasattr(a, 'getHiddenCppPointer')}
    args, r, err = call(d, o, meth, tab[meth])
    if err is not None or meth in GETTERS:
        raise Discard()
    arg_arrays = {ptr(a) for x in args for a in arrays_of(x) if hasattr(a, 'getHiddenCppPointer')}
    d0 = dump(o)
    n = 0
    for a in arrays_of(r):
        if ptr(a) not in mine and ptr(a) not in arg_arrays and scribble(a):
            n += 1
    d.check(dump(o) == d0, '%s.%s(%s): writing in the result alters the object' % (cls, meth, short(args)))
    d.nontrivial(n > 0)
    if n:
        d.label('%s.%s' % (cls, meth))


@check(n=4000, rule='always')
def copies(d):
    """a deep copy equals its source, holds none of its arrays, and lives its own life"""
    o = rnd_obj(d)
    cls = type(o).__name__
    if cls == 'MEDCouplingFieldTemplate':
        raise Discard()
    if cls == 'MEDCouplingCartesianAMRMesh':
        c = o.deepCopy(None)
    elif d.bool() and hasattr(o, '__deepcopy__'):
        c = copy.deepcopy(o)
    elif cls.startswith('MEDCouplingField') and d.bool():
        c = o.cloneWithMesh(True)
    else:
        c = o.deepCopy()
    d.sample(cls)
    d0 = dump(o)
    eq(d, dump(c), d0, 'content of the deep copy of a ' + cls)
    A, B = arrays_of(o), arrays_of(c)
    eq(d, len(B), len(A), 'arrays of the deep copy of a ' + cls)
    d.check(not {ptr(a) for a in A} & {ptr(b) for b in B}, 'deep copy of a %s holds an array of its source' % cls)
    x, y = (c, o) if d.bool() else (o, c)
    for a in arrays_of(x):
        scribble(a)
    eq(d, dump(y), d0, 'deep copy of a %s after the arrays of the other one were overwritten' % cls)
    dx = dump(x)
    mutate(d, x)
    eq(d, dump(y), d0, 'deep copy of a %s after the other one was modified' % cls)
    del x, y
    if d.bool():
        del o
        A = None
        gc.collect()
        c2 = dump(c)
    d.nontrivial(True)


def mutate(d, x):
    """one random in-place modification, whatever the class; names of the touched objects are not needed"""
    k = type(x).__name__
    try:
        if hasattr(x, 'setName'):
            x.setName('other')
        if k.startswith('MEDCouplingField'):
            x.setTime(9., 9, 9) if hasattr(x, 'setTime') and 'ONE' in str(k) else None
            a = x.getArray()
            if k == 'MEDCouplingFieldDouble':
                x += 3.
        elif k in ('MEDCouplingUMesh',):
            x.translate([1.] * x.getSpaceDimension())
            x.renumberCells(list(range(x.getNumberOfCells()))[::-1], True)
        elif k == 'MEDCouplingIMesh':
            x.setOrigin([7.] * x.getSpaceDimension())
        elif k.startswith('MEDCoupling') and hasattr(x, 'translate'):
            x.translate([1.] * x.getSpaceDimension())
        elif k.startswith('DataArray'):
            x.rearrange(x.getNbOfElems() or 1) if x.isAllocated() else x.alloc(2, 1)
        elif k == 'MEDCouplingCartesianAMRMesh':
            x.removeAllPatches()
    except InterpKernelException:
        pass


def _umesh(d):
    pm = gen.any_mesh(d, dims=(2, 3), nmax=2)
    return to_mc(pm)


def same(d, a, b, what, want=True):
    d.check((ptr(a) == ptr(b)) == want, '%s: %s' % (what, 'not shared' if want else 'shared'))


def _share_mesh(d, m):
    ids = I(sorted(d.subset(m.getNumberOfCells())) or [0])
    C, N, X = m.getCoords(), m.getNodalConnectivity(), m.getNodalConnectivityIndex()
    k = d.below(11)
    if k == 0:
        c = m.clone(False)
        same(d, c.getCoords(), C, 'clone(False): coordinates')
    elif k == 1:
        c = m.clone(True)
        same(d, c.getCoords(), C, 'clone(True): coordinates', False)
        same(d, c.getNodalConnectivity(), N, 'clone(True): connectivity', False)
    elif k == 2:
        c = m.buildPartOfMySelf(ids, True)
        same(d, c.getCoords(), C, 'buildPartOfMySelf(keep): coordinates')
        same(d, c.getNodalConnectivity(), N, 'buildPartOfMySelf(keep): connectivity', False)
    elif k == 3:
        c = m.buildPartOfMySelf(ids, False)
        same(d, c.getCoords(), C, 'buildPartOfMySelf(no keep): coordinates', False)
    elif k == 4:
        c = m.buildDescendingConnectivity()[0]
        same(d, c.getCoords(), C, 'buildDescendingConnectivity: coordinates')
    elif k == 5:
        keep = d.bool()
        c = m.buildBoundaryMesh(keep)
        same(d, c.getCoords(), C, 'buildBoundaryMesh(%s): coordinates' % keep, keep)
    elif k == 6:
        c = m.deepCopyConnectivityOnly()
        same(d, c.getCoords(), C, 'deepCopyConnectivityOnly: coordinates')
        same(d, c.getNodalConnectivity(), N, 'deepCopyConnectivityOnly: connectivity', False)
    elif k == 7:
        c = mc.MEDCouplingUMesh.MergeUMeshesOnSameCoords([m, m.clone(False)])
        same(d, c.getCoords(), C, 'MergeUMeshesOnSameCoords: coordinates')
    elif k == 8:
        c = m.buildFacePartOfMySelfNode(I(list(range(m.getNumberOfNodes()))), True)
        same(d, c.getCoords(), C, 'buildFacePartOfMySelfNode: coordinates')
    elif k == 9:
        c = mc.MEDCouplingUMesh('x', m.getMeshDimension())
        c.setCoords(C)
        same(d, c.getCoords(), C, 'setCoords')
        c.setConnectivity(N, X)
        same(d, c.getNodalConnectivity(), N, 'setConnectivity')
        same(d, c.getNodalConnectivityIndex(), X, 'setConnectivity (index)')
    else:
        ps = m.splitByType()
        for p in ps:
            same(d, p.getCoords(), C, 'splitByType: coordinates')
        t = ps[0].getTypeOfCell(0)
        if t in (POLYGON, POLYHED):
            g = mc.MEDCoupling1DGTUMesh(ps[0])
        elif t == QPOLYG:
            return
        else:
            g = mc.MEDCoupling1SGTUMesh(ps[0])
        same(d, g.getCoords(), C, '1GTUMesh(umesh): coordinates')
        c = g.buildUnstructured()
        same(d, c.getCoords(), C, '1GTUMesh.buildUnstructured: coordinates')


def _share_field(d, m):
    f = mc.MEDCouplingFieldDouble(d.choice([mc.ON_CELLS, mc.ON_NODES]), d.choice([mc.ONE_TIME, mc.LINEAR_TIME]))
    f.setMesh(m)
    same(d, f.getMesh(), m, 'field.setMesh')
    n = f.getNumberOfTuplesExpected()
    A = mc.DataArrayDouble([1. * i for i in range(n)])
    f.setArray(A)
    lin = f.getTimeDiscretization() == mc.LINEAR_TIME
    arrs = [A]
    if lin:
        f.setEndArray(A + 1)
        arrs.append(f.getEndArray())
    same(d, f.getArray(), A, 'field.setArray')
    k = d.below(9)
    want_m, want_a = True, True
    if k == 0:
        g = f.clone(False)
    elif k == 1:
        g, want_a = f.clone(True), False
    elif k == 2:
        g, want_m, want_a = f.deepCopy(), False, False
    elif k == 3:
        g, want_m, want_a = f.cloneWithMesh(True), False, False
    elif k == 4:
        g, want_m = f.cloneWithMesh(False), False
    elif k == 5:
        deep = d.bool()
        g = f.buildNewTimeReprFromThis(mc.ONE_TIME, deep)
        same(d, g.getMesh(), m, 'buildNewTimeReprFromThis: mesh')
        same(d, g.getArray(), A, 'buildNewTimeReprFromThis(deep=%s): array' % deep, not deep)
        return
    elif k == 6:
        g = f + f
        same(d, g.getMesh(), m, 'sum of fields: mesh')
        same(d, g.getArray(), A, 'sum of fields: array', False)
        return
    elif k == 7:
        g = m.getMeasureField(True)
        same(d, g.getMesh(), m, 'getMeasureField: mesh')
        return
    else:
        g = mc.MEDCouplingFieldDouble(mc.MEDCouplingFieldTemplate(f), mc.ONE_TIME)
        same(d, g.getMesh(), m, 'field of a template: mesh')
        return
    what = ['clone(False)', 'clone(True)', 'deepCopy', 'cloneWithMesh(True)', 'cloneWithMesh(False)'][k]
    same(d, g.getMesh(), m, what + ': mesh', want_m)
    if want_a is not None:
        for a, b in zip(arrs, g.getArrays()):
            same(d, a, b, what + ': array', want_a)
    if want_a:
        A.setIJ(0, 0, 99.)
        eq(d, g.getArray().getIJ(0, 0), 99., what + ': value seen through the shared array')


@check(n=8000, rule='always')
def sharing(d):
    """what is documented as shared is shared, what is documented as copied is not"""
    m = _umesh(d)
    k = d.below(4)
    if k < 2:
        _share_mesh(d, m)
    elif k == 2:
        _share_field(d, m)
    else:
        axes = [mc.DataArrayDouble([0., 1., 2.5]) for _ in range(d.int(1, 3))]
        c = mc.MEDCouplingCMesh('c')
        c.setCoords(*axes)
        for i, a in enumerate(axes):
            same(d, c.getCoordsAt(i), a, 'CMesh.setCoords')
            same(d, c.clone(False).getCoordsAt(i), a, 'CMesh.clone(False)')
            same(d, c.clone(True).getCoordsAt(i), a, 'CMesh.clone(True)', False)
            same(d, c.deepCopy().getCoordsAt(i), a, 'CMesh.deepCopy', False)
        a = axes[0]
        same(d, a.performCopyOrIncrRef(False), a, 'performCopyOrIncrRef(False)') if hasattr(a, 'performCopyOrIncrRef') else None
        same(d, a.performCopyOrIncrRef(True), a, 'performCopyOrIncrRef(True)', False) if hasattr(a, 'performCopyOrIncrRef') else None
    d.nontrivial(True)


# ---------------------------------------------------------------- time labels over histories
class Graph:
    """arrays, meshes and fields with the model of who holds whom"""

    def __init__(self, d):
        self.d, self.o, self.own = d, [], {}
        for _ in range(d.int(1, 2)):
            self.add_mesh()
        for _ in range(d.int(1, 2)):
            self.add_field()

    def add(self, x, owned):
        self.o.append(x)
        i = len(self.o) - 1
        self.own[i] = list(owned)
        return i

    def add_mesh(self):
        d = self.d
        k = d.weighted([(4, 'u'), (2, 'c'), (1, 'i'), (1, 'l'), (1, 's')])
        if k in 'us':
            pts = [i for i, x in enumerate(self.o) if type(x).__name__ == 'DataArrayDouble' and x.getNumberOfComponents() == 2]
            if pts and d.bool():
                ci = d.choice(pts)
            else:
                ci = self.add(Dbl([(float(i), float(j)) for j in range(3) for i in range(3)], 2), [])
            u = mc.MEDCouplingUMesh('u', 2)
            u.setCoords(self.o[ci])
            u.allocateCells()
            for j in range(2):
                for i in range(2):
                    u.insertNextCell(QUAD4, [3 * j + i, 3 * j + i + 1, 3 * j + i + 4, 3 * j + i + 3])
            if k == 's':
                u = mc.MEDCoupling1SGTUMesh(u)
            return self.add(u, [ci])
        if k == 'c':
            ax = [self.add(mc.DataArrayDouble([0., 1., 2.]), []) for _ in range(2)]
            m = mc.MEDCouplingCMesh('c')
            m.setCoords(*[self.o[i] for i in ax])
            return self.add(m, ax)
        if k == 'i':
            return self.add(mc.MEDCouplingIMesh('i', 2, [3, 3], [0., 0.], [1., 1.]), [])
        ci = self.add(Dbl([(float(i), float(j)) for j in range(3) for i in range(3)], 2), [])
        m = mc.MEDCouplingCurveLinearMesh('l')
        m.setCoords(self.o[ci])
        m.setNodeGridStructure([3, 3])
        return self.add(m, [ci])

    def meshes(self):
        return [i for i, x in enumerate(self.o) if isinstance(x, mc.MEDCouplingMesh)]

    def add_field(self):
        d = self.d
        mi = d.choice(self.meshes())
        f = mc.MEDCouplingFieldDouble(mc.ON_CELLS, d.choice([mc.ONE_TIME, mc.LINEAR_TIME, mc.NO_TIME]))
        f.setMesh(self.o[mi])
        ai = self.add(mc.DataArrayDouble([1., 2., 3., 4.]), [])
        f.setArray(self.o[ai])
        ow = [mi, ai]
        if f.getTimeDiscretization() == mc.LINEAR_TIME:
            bi = self.add(mc.DataArrayDouble([5., 6., 7., 8.]), [])
            f.setEndArray(self.o[bi])
            ow.append(bi)
        return self.add(f, ow)

    def reach(self, i):
        r, todo = set(), [i]
        while todo:
            j = todo.pop()
            if j not in r:
                r.add(j)
                todo += self.own[j]
        return r

    def labels(self):
        # owners after what they own: each updateTime pulls the labels of the objects held
        for x in self.o:
            x.updateTime()
        return [x.getTimeOfThis() for x in self.o]


def change(d, G, i):
    """one documented modification of object i"""
    x = G.o[i]
    k = type(x).__name__
    if k == 'DataArrayDouble':
        w = d.choice(['setIJ', 'applyLin', 'iota', 'fill', '+=', 'setPart', 'reverse', 'item', 'abs', 'neg', 'declare'])
        if w == 'setIJ':
            x.setIJ(0, 0, 9.)
        elif w == 'applyLin':
            x.applyLin(2., 1.)
        elif w == 'iota':
            x.rearrange(1) if False else None
            x.fillWithZero()
        elif w == 'fill':
            x.fillWithValue(3.)
        elif w == '+=':
            x += 1.
        elif w == 'setPart':
            x.setPartOfValuesSimple1(4., 0, 1, 1, 0, 1, 1)
        elif w == 'reverse':
            x.reverse()
        elif w == 'item':
            x[0] = 5.
        elif w == 'abs':
            x.abs()
        elif w == 'neg':
            x *= -1.
        else:
            x.declareAsNew()
    elif isinstance(x, mc.MEDCouplingFieldDouble):
        w = d.choice(['setArray', '+=', 'setMesh', 'applyLin', 'fill', 'declare'])
        if w == 'setArray':
            ai = G.add(mc.DataArrayDouble([4., 3., 2., 1.]), [])
            x.setArray(G.o[ai])
            G.own[i][1] = ai
        elif w == '+=':
            x += 2.
        elif w == 'applyLin':
            x.applyLin(3., 1., 0)
        elif w == 'fill':
            before = x.getArray()
            x.fillFromAnalytic(1, 'x')
            # the arrays may be replaced
            G.own[i] = [G.own[i][0]] + [G.add(a, []) for a in x.getArrays()]
        elif w == 'setMesh':
            cand = [j for j in G.meshes() if ptr(G.o[j]) != ptr(x.getMesh())]
            if not cand:
                x.declareAsNew()
            else:
                mi = d.choice(cand)
                x.setMesh(G.o[mi])
                G.own[i][0] = mi
        else:
            x.declareAsNew()
    else:
        w = d.choice(['translate', 'scale', 'coords', 'spec', 'declare'])
        if w == 'translate':
            x.translate([1., 2.])
        elif w == 'scale':
            x.scale([0., 0.], 2.)
        elif w == 'coords' and k in ('MEDCouplingUMesh', 'MEDCoupling1SGTUMesh', 'MEDCouplingCurveLinearMesh'):
            ci = G.add(Dbl([(float(a), float(b)) for b in range(3) for a in range(3)], 2), [])
            x.setCoords(G.o[ci])
            G.own[i] = [ci]
        elif w in ('coords', 'spec') and k == 'MEDCouplingCMesh':
            ci = G.add(mc.DataArrayDouble([0., 2., 3.]), [])
            x.setCoordsAt(1, G.o[ci])
            G.own[i][1] = ci
        elif w in ('coords', 'spec') and k == 'MEDCouplingIMesh':
            d.choice([lambda: x.setOrigin([1., 1.]), lambda: x.setDXYZ([2., 2.]), lambda: x.setNodeStruct([3, 3])])()
        elif w == 'spec' and k == 'MEDCouplingCurveLinearMesh':
            x.setNodeGridStructure([3, 3])
        elif w == 'spec' and k == 'MEDCouplingUMesh':
            d.choice([lambda: x.renumberCells([3, 2, 1, 0], True), lambda: x.convertAllToPoly(), lambda: x.convertToPolyTypes([0]),
                      lambda: x.invertOrientationOfAllCells(), lambda: x.setConnectivity(x.getNodalConnectivity().deepCopy(), x.getNodalConnectivityIndex().deepCopy()),
                      lambda: x.getNodalConnectivity().declareAsNew()])()
        elif w == 'spec' and k == 'MEDCoupling1SGTUMesh':
            x.setNodalConnectivity(x.getNodalConnectivity().deepCopy())
        else:
            w = 'declare'
            x.declareAsNew()
    return '%s %s' % (k, w)


@check(n=25000, rule='at least three modifications')
def time(d):
    """the label of an object grows with each change of it or of what it holds, and never otherwise"""
    G = Graph(d)
    t = G.labels()
    log = []
    for _ in range(d.int(1, 8)):
        if d.below(4) == 0:
            d.choice([G.add_mesh, G.add_field])()
            eq(d, G.labels()[:len(t)], t, 'labels after the construction of an object over those of ' + ', '.join(log))
            t = G.labels()
            continue
        i = d.below(len(G.o))
        n = len(G.o)
        before = {j: G.reach(j) for j in range(n)}
        what = change(d, G, i)
        log.append(what)
        touched = before[i] | G.reach(i)
        t2 = G.labels()
        d.check(t2[i] > t[i], '%s: label %d -> %d (history %s)' % (what, t[i], t2[i], log))
        for j in range(n):
            r = G.reach(j)
            if i in r:
                d.check(t2[j] > t[j], '%s: label of the %s that holds it %d -> %d (history %s)' % (what, type(G.o[j]).__name__, t[j], t2[j], log))
            elif not (r & touched):
                eq(d, t2[j], t[j], '%s: label of an independent %s (history %s)' % (what, type(G.o[j]).__name__, log))
        eq(d, G.labels(), t2, 'labels asked twice')
        t = t2
    d.sample(', '.join(log))
    d.nontrivial(len(log) >= 3)


# ---------------------------------------------------------------- reference counts over histories
@check(n=25000, rule='at least six operations')
def owners(d):
    """model of the owners of arrays and meshes: the count of each object is the number of its holders, and it dies with the last one"""
    A, M, F = [], [], []          # python handles
    ha, hm = {}, {}               # name -> holders (names of meshes/fields)
    objs = {}
    names = itertools.count()
    log = []
    slots = {}                    # holder name -> {slot: held name}
    n0 = 9

    def arr():
        nm = 'a%d' % next(names)
        objs[nm] = mc.DataArrayDouble([1.] * 4)
        slots[nm] = {}
        return nm

    def coords():
        nm = 'x%d' % next(names)
        objs[nm] = Dbl([(float(i), float(j)) for j in range(3) for i in range(3)], 2)
        slots[nm] = {}
        return nm

    def mesh(x):
        nm = 'm%d' % next(names)
        u = mc.MEDCouplingUMesh(nm, 2)
        u.setCoords(objs[x])
        u.allocateCells()
        for j in range(2):
            for i in range(2):
                u.insertNextCell(QUAD4, [3 * j + i, 3 * j + i + 1, 3 * j + i + 4, 3 * j + i + 3])
        objs[nm] = u
        slots[nm] = {'x': x}
        return nm

    def alive(nm):
        """python handle or held, directly or not, by something that is"""
        return nm in objs

    dropped = {}                  # name -> True when the python handle has gone but a holder remains

    def count(nm):
        c = 1 if nm in objs else 0
        for h, s in slots.items():
            if living(h):
                c += list(s.values()).count(nm)
        return c

    def living(nm):
        if nm in objs:
            return True
        return any(living(h) for h, s in slots.items() if nm in s.values())

    def verify():
        for nm, o in objs.items():
            eq(d, o.getRCValue(), count(nm), 'reference count of %s after %s' % (nm, '; '.join(log)))

    coords()
    arr()
    for _ in range(d.int(3, 14)):
        pick = lambda p: [x for x in objs if x[0] == p]
        k = d.choice(['coords', 'arr', 'mesh', 'field', 'field', 'setCoords', 'setArray', 'setMesh', 'setEnd', 'drop', 'drop', 'clone', 'back', 'getm'])
        if k == 'coords':
            log.append(coords())
        elif k == 'arr':
            log.append(arr())
        elif k == 'mesh' and pick('x'):
            x = d.choice(pick('x'))
            log.append('%s(%s)' % (mesh(x), x))
        elif k == 'field' and pick('m'):
            m = d.choice(pick('m'))
            nm = 'f%d' % next(names)
            objs[nm] = mc.MEDCouplingFieldDouble(mc.ON_CELLS, mc.LINEAR_TIME)
            objs[nm].setMesh(objs[m])
            slots[nm] = {'m': m}
            log.append('%s(%s)' % (nm, m))
        elif k == 'setCoords' and pick('m') and pick('x'):
            m, x = d.choice(pick('m')), d.choice(pick('x'))
            objs[m].setCoords(objs[x])
            slots[m]['x'] = x
            log.append('%s.setCoords(%s)' % (m, x))
        elif k in ('setArray', 'setEnd') and pick('f') and pick('a'):
            f, a = d.choice(pick('f')), d.choice(pick('a'))
            (objs[f].setArray if k == 'setArray' else objs[f].setEndArray)(objs[a])
            slots[f][k] = a
            log.append('%s.%s(%s)' % (f, k, a))
        elif k == 'setMesh' and pick('f') and pick('m'):
            f, m = d.choice(pick('f')), d.choice(pick('m'))
            objs[f].setMesh(objs[m])
            slots[f]['m'] = m
            log.append('%s.setMesh(%s)' % (f, m))
        elif k == 'drop' and len(objs) > 2:
            nm = d.choice(sorted(objs))
            del objs[nm]
            log.append('del ' + nm)
            # what nobody holds any more dies, and releases what it held
            for h in list(slots):
                if not living(h):
                    slots[h] = {}
        elif k == 'clone' and pick('f'):
            f = d.choice(pick('f'))
            nm = 'f%d' % next(names)
            objs[nm] = objs[f].clone(False)
            slots[nm] = dict(slots[f])
            log.append('%s=%s.clone(False)' % (nm, f))
        elif k in ('back', 'getm'):
            # get back a python handle on an object held by another one
            c = sorted((h, s, nm) for h in objs for s, nm in slots[h].items() if nm not in objs)
            if c:
                h, s, nm = d.choice(c)
                objs[nm] = getattr(objs[h], {'x': 'getCoords', 'm': 'getMesh', 'setArray': 'getArray', 'setEnd': 'getEndArray'}[s])()
                log.append('%s=%s.%s' % (nm, h, s))
        verify()
    # release in any order; what remains is still right
    while objs:
        nm = d.choice(sorted(objs))
        del objs[nm]
        log.append('del ' + nm)
        for h in list(slots):
            if not living(h):
                slots[h] = {}
        verify()
    d.sample('; '.join(log))
    d.nontrivial(len(log) >= 9)
