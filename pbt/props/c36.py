"""C36 - invalid arguments are refused, operands unchanged, memory errors never happen (run under AddressSanitizer)."""
import importlib
import engine
import gen
import ref
import fields
from common import *
from engine import check, Violation, Discard

MODS = ['c01', 'c02', 'c03', 'c04', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c16', 'c17', 'c18', 'c20', 'c21', 'c22', 'c27']
_SUBS = []


def subs():
    if not _SUBS:
        n = len(engine.REG)
        for k in MODS:
            importlib.import_module('props.' + k)
        _SUBS.extend(engine.REG[n:])
        del engine.REG[n:]
        _SUBS[:] = [s for s in _SUBS if s.hang <= 120]
    return _SUBS


@check(n=1200, rule='the case is not discarded', hang=300, thorough=10)
def ordinary(d):
    """operations of the other properties on generated operands: no memory error (their results are judged elsewhere)"""
    s = d.choice(subs())
    d.label(s.fn.__module__[-3:])
    try:
        s.fn(d)
    except Discard:
        raise
    except Exception:
        pass
    d.nontrivial(True)


def bid(d, n):
    """an id out of [0,n)"""
    return d.choice([-1, -2, n, n, n + 1, n + 1000, -n - 1, 2**31 - 1])


def snap(o):
    if o is None:
        return None
    return o.deepCopy()


def same(o, c):
    if isinstance(o, (mc.DataArrayDouble,)):
        if not c.isAllocated() or not o.isAllocated():
            return o.isAllocated() == c.isAllocated()
        return o.getInfoOnComponents() == c.getInfoOnComponents() and o.getNumberOfTuples() == c.getNumberOfTuples() and o.toNumPyArray().tobytes() == c.toNumPyArray().tobytes()
    if isinstance(o, mc.DataArrayInt):
        if not c.isAllocated() or not o.isAllocated():
            return o.isAllocated() == c.isAllocated()
        return o.isEqual(c)
    if isinstance(o, mc.MEDCouplingSkyLineArray):
        return L(o.getIndexArray()) == L(c.getIndexArray()) and L(o.getValuesArray()) == L(c.getValuesArray())
    if isinstance(o, mc.MEDCouplingFieldDouble):
        x, y = o.getArray(), c.getArray()
        return (x is None) == (y is None) and (x is None or same(x, y)) and o.getMesh().isEqual(c.getMesh(), 0.) and o.getTime() == c.getTime()
    return o.isEqual(c, 0.)


PARTIAL = ('setitem list', 'transformWithIndArr', 'convertToPolyTypes')     # in-place edits that write as they go


def bad(d, what, ops, fn, must=True):
    """call fn: it must raise and let the operands unchanged"""
    c = [snap(o) for o in ops]
    try:
        r = fn()
    except (mc.InterpKernelException, TypeError, ValueError, OverflowError, IndexError, NotImplementedError) as e:
        for k, (o, x) in enumerate(zip(ops, c)):
            if what in PARTIAL:
                continue
            d.check(same(o, x), '%s raises and changes its operand %d: %s' % (what, k, str(e)[:120]))
        return
    if must:
        d.fail('%s is accepted: %s' % (what, str(r)[:200]))


def arr(d, cls=None, n=None, nc=None):
    n = d.int(1, 8) if n is None else n
    nc = d.int(1, 3) if nc is None else nc
    if (cls or d.choice(['i', 'd'])) == 'i':
        a = mc.DataArrayInt([d.int(0, 6) for _ in range(n * nc)], n, nc)
    else:
        a = mc.DataArrayDouble([d.sint(40) / 4. for _ in range(n * nc)], n, nc)
    a.setInfoOnComponents(['c%d' % k for k in range(nc)])
    a.setName('a')
    return a


def ids_with_bad(d, n):
    v = [d.below(n) for _ in range(d.int(0, 4))]
    v.insert(d.below(len(v) + 1), bid(d, n))
    return [int(x) for x in v]


def run_table(d, table):
    k = d.below(len(table))
    what, ops, fn = table[k][:3]
    must = table[k][3] if len(table[k]) > 3 else True
    d.label(what)
    d.nontrivial(True)
    d.sample(what)
    bad(d, what, ops, fn, must)


@check(n=6000, rule='every case')
def arrays(d):
    """calls on arrays with invalid arguments"""
    a = arr(d)
    n, nc = a.getNumberOfTuples(), a.getNumberOfComponents()
    b = bid(d, n)
    bc = bid(d, nc)
    i1 = arr(d, 'i', nc=1)
    n1 = i1.getNumberOfTuples()
    d1 = arr(d, 'd')
    other = type(a)([0] * ((n + 1) * nc), n + 1, nc)
    othc = type(a)([0] * (n * (nc + 1)), n, nc + 1)
    A = mc.DataArrayInt
    bl = ids_with_bad(d, n)
    cls = type(a)
    one = type(a)([1] * nc, 1, nc)
    empty = type(a)(0, nc)
    void = type(a).New()
    z = lambda x: mc.DataArrayInt(x) if x else mc.DataArrayInt(0, 1)
    run_table(d, [
        ('getIJSafe(tuple)', [a], lambda: a.getIJSafe(b, 0)),
        ('getIJSafe(component)', [a], lambda: a.getIJSafe(0, bc)),
        ('selectByTupleIdSafe', [a], lambda: a.selectByTupleIdSafe(bl)),
        ('selectByTupleIdSafe(array)', [a], lambda: a.selectByTupleIdSafe(z(bl))),
        ('selectByTupleIdSafeSlice end', [a], lambda: a.selectByTupleIdSafeSlice(0, n + d.int(1, 5), 1)),
        ('selectByTupleIdSafeSlice step', [a], lambda: a.selectByTupleIdSafeSlice(0, n, 0)),
        ('selectByTupleIdSafeSlice begin', [a], lambda: a.selectByTupleIdSafeSlice(-d.int(1, 4), n, 1)),
        ('selectByTupleRanges', [a], lambda: a.selectByTupleRanges([(0, n + 1)])),
        ('subArray', [a], lambda: a.subArray(n + d.int(1, 3))),
        ('subArray end', [a], lambda: a.subArray(0, n + d.int(1, 3))),
        ('keepSelectedComponents', [a], lambda: a.keepSelectedComponents([bc])),
        ('setSelectedComponents', [a, othc], lambda: a.setSelectedComponents(othc, [bc] * (nc + 1))),
        ('setPartOfValuesSimple1', [a], lambda: a.setPartOfValuesSimple1(1, 0, n + d.int(1, 3), 1, 0, nc, 1)),
        ('setPartOfValuesSimple1 comp', [a], lambda: a.setPartOfValuesSimple1(1, 0, n, 1, 0, nc + d.int(1, 3), 1)),
        ('setPartOfValues1', [a, other], lambda: a.setPartOfValues1(other, 0, n, 1, 0, nc, 1)),
        ('setPartOfValues1 range', [a, other], lambda: a.setPartOfValues1(other, 0, n + 1, 1, 0, nc, 1)),
        ('setPartOfValuesAdv', [a, one], lambda: a.setPartOfValuesAdv(one, mc.DataArrayInt([b, 0], 1, 2))),
        ('setPartOfValuesAdv source', [a, one], lambda: a.setPartOfValuesAdv(one, mc.DataArrayInt([0, bid(d, 1)], 1, 2))),
        ('setContigPartOfSelectedValues', [a, other], lambda: a.setContigPartOfSelectedValues(d.int(0, n), other, z(list(range(n + 1))))),
        ('setContigPartOfSelectedValues ids', [a, other], lambda: a.setContigPartOfSelectedValues(0, other, z([bid(d, n + 1)]))),
        ('setContigPartOfSelectedValuesSlice', [a, other], lambda: a.setContigPartOfSelectedValuesSlice(0, other, 0, n + 1, 1)),
        ('setContigPartOfSelectedValuesSlice src', [a, one], lambda: a.setContigPartOfSelectedValuesSlice(0, one, 0, 2, 1)),
        ('rearrange', [a], lambda: a.rearrange(d.choice([k for k in range(1, n * nc + 5) if (n * nc) % k] + [0]))),
        ('getitem', [a], lambda: a[n + d.int(0, 4)]),
        ('getitem list', [a], lambda: a[bl]),
        ('getitem comp', [a], lambda: a[:, nc + d.int(0, 3)]),
        ('setitem', [a], lambda: a.__setitem__(n + d.int(0, 4), 1)),
        ('setitem list', [a], lambda: a.__setitem__(bl, 1)),
        ('setitem value', [a, other], lambda: a.__setitem__(slice(None), other)),
        ('Aggregate', [a, othc], lambda: cls.Aggregate([a, othc])),
        ('Aggregate2', [a, othc], lambda: cls.Aggregate(othc, a)),
        ('Meld', [a, other], lambda: cls.Meld([a, other])),
        ('meldWith', [a, other], lambda: a.meldWith(other)),
        ('aggregate in place', [a, othc], lambda: a.aggregate(othc)),
        ('add', [a, other], lambda: a + (other if n > 1 else type(a)([0] * 3 * (nc + 1), 3, nc + 1))),
        ('addEqual', [a, other], lambda: a.addEqual(other)),
        ('multiplyEqual', [a, other], lambda: a.multiplyEqual(other)),
        ('substractEqual', [a, other], lambda: a.substractEqual(other)),
        ('divideEqual', [a, other], lambda: a.divideEqual(other)),
        ('Dot', [d1, d1], lambda: mc.DataArrayDouble.Dot(d1, arr(d, 'd', d1.getNumberOfTuples() + 1, d1.getNumberOfComponents()))),
        ('CrossProduct', [d1], lambda: mc.DataArrayDouble.CrossProduct(arr(d, 'd', 3, 2), arr(d, 'd', 3, 2))),
        ('Max', [a, other], lambda: mc.DataArrayDouble.Max(arr(d, 'd', 3, 2), arr(d, 'd', 4, 2))),
        ('transformWithIndArr', [i1], lambda: i1.transformWithIndArr(z([0] * d.int(0, max(0, max(L(i1))))))),
        ('checkAndPreparePermutation', [i1], lambda: z([0, 0, 1]).checkAndPreparePermutation()),
        ('invertArrayO2N2N2O', [i1], lambda: i1.invertArrayO2N2N2O(d.int(0, max(0, max(L(i1)))))),
        ('invertArrayN2O2O2N', [i1], lambda: i1.invertArrayN2O2O2N(d.int(0, max(0, max(L(i1)))))),
        ('renumber size', [a], lambda: a.renumber(list(range(n + 1)))),
        ('renumberAndReduce size', [a], lambda: a.renumberAndReduce(list(range(n + 1)), n)),
        ('setInfoOnComponent', [a], lambda: a.setInfoOnComponent(bc, 'x')),
        ('getInfoOnComponent', [a], lambda: a.getInfoOnComponent(bc)),
        ('setInfoOnComponents', [a], lambda: a.setInfoOnComponents(['x'] * (nc + 1))),
        ('alloc negative', [], lambda: cls(-d.int(1, 5), 1)),
        ('front of empty', [empty], lambda: empty.front()),
        ('back of empty', [empty], lambda: empty.back()),
        ('getMaxValue of empty', [empty], lambda: empty.getMaxValue()),
        ('getMinValue of empty', [empty], lambda: empty.getMinValue()),
        ('sort of void', [void], lambda: void.sort()),
        ('getMaxValue of void', [void], lambda: void.getMaxValue()),
        ('select of void', [void], lambda: void.selectByTupleIdSafe([0])),
        ('accumulate of void', [void], lambda: void.accumulate()),
        ('deepCopy of void', [], lambda: void.deepCopy(), False),
        ('addEqual of void', [a], lambda: a.addEqual(void)),
        ('rearrange of void', [void], lambda: void.rearrange(2)),
        ('toNoInterlace of void', [void], lambda: void.toNoInterlace()),
        ('fillWithZero of void', [void], lambda: void.fillWithZero()),
        ('setPartOfValues1 with void', [a], lambda: a.setPartOfValues1(void, 0, n, 1, 0, nc, 1)),
        ('Meld with void', [a], lambda: cls.Meld([a, void])),
        ('Aggregate with void', [a], lambda: cls.Aggregate([a, void])),
        ('accumulate', [a], lambda: a.accumulate(bc)),
        ('accumulatePerChunck', [a], lambda: a.accumulatePerChunck(mc.DataArrayInt([0, n + d.int(1, 4)]))),
        ('accumulatePerChunck negative', [a], lambda: a.accumulatePerChunck(mc.DataArrayInt([-1, n]))),
        ('pushBackSilent', [], lambda: arr(d, nc=d.int(2, 3)).pushBackSilent(1)),
        ('popBackSilent', [], lambda: cls(0, 1).popBackSilent()),
        ('ExtractFromIndexedArrays', [i1], lambda: A.ExtractFromIndexedArrays([bid(d, 2)], i1, mc.DataArrayInt([0, n1, n1]))),
        ('ExtractFromIndexedArrays index', [i1], lambda: A.ExtractFromIndexedArrays([0], i1, mc.DataArrayInt([0, n1 + d.int(1, 9)]))),
        ('ExtractFromIndexedArraysSlice', [i1], lambda: A.ExtractFromIndexedArraysSlice(0, 3, 1, i1, mc.DataArrayInt([0, n1, n1]))),
        ('SetPartOfIndexedArrays', [i1], lambda: A.SetPartOfIndexedArrays([bid(d, 1)], i1, mc.DataArrayInt([0, n1]), mc.DataArrayInt([1]), mc.DataArrayInt([0, 1]))),
        ('buildComplement', [i1], lambda: i1.buildComplement(d.int(0, max(0, max(L(i1)))))),
        ('buildUnion', [], lambda: arr(d, 'i', nc=2).buildUnion(i1)),
        ('buildSubstraction', [], lambda: arr(d, 'i', nc=2).buildSubstraction(i1)),
        ('computeOffsets', [], lambda: arr(d, 'i', nc=2).computeOffsets()),
        ('deltaShiftIndex', [], lambda: arr(d, 'i', nc=2).deltaShiftIndex()),
        ('deltaShiftIndex of empty', [], lambda: mc.DataArrayInt(0, 1).deltaShiftIndex()),
        ('buildPermutationArr', [i1], lambda: i1.buildPermutationArr(z([x + 100 for x in L(i1)]))),
        ('BuildOld2NewArrayFromSurjectiveFormat2', [], lambda: A.ConvertIndexArrayToO2N(3, [0, 9], [0, 2])),
        ('ConvertIndexArrayToO2N negative', [], lambda: A.ConvertIndexArrayToO2N(3, [0, -1], [0, 2])),
        ('partitionByDifferentValues', [], lambda: arr(d, 'i', nc=2).partitionByDifferentValues()),
        ('getHashCode of void', [], lambda: mc.DataArrayInt.New().getHashCode()),
        ('findIdsEqual multi', [], lambda: arr(d, nc=2).findIdsInRange(0, 1)),
        ('changeSurjectiveFormat', [], lambda: mc.DataArrayInt([0, d.choice([-1, 9, 1000000])]).changeSurjectiveFormat(2)),
        ('fromPolarToCart', [], lambda: arr(d, 'd', nc=1).fromPolarToCart()),
        ('fromCylToCart', [], lambda: arr(d, 'd', nc=2).fromCylToCart()),
        ('eigenValues', [], lambda: arr(d, 'd', nc=2).eigenValues()),
        ('determinant', [], lambda: arr(d, 'd', nc=2).determinant()),
        ('magnitude of void', [], lambda: mc.DataArrayDouble.New().magnitude()),
        ('findCommonTuples', [], lambda: arr(d, 'd', nc=3).changeNbOfComponents(7, 0.).findCommonTuples(1e-3)),
        ('getMinMaxPerComponent of void', [], lambda: mc.DataArrayDouble.New().getMinMaxPerComponent()),
        ('applyFunc', [a] if isinstance(a, mc.DataArrayDouble) else [], lambda: arr(d, 'd').applyFunc(1, d.choice(['x+', '(x', 'x+y*z+t+u+v', 'foo(x)', ')', '', '1..2+x']))),
        ('applyFuncCompo', [], lambda: arr(d, 'd', nc=1).applyFuncCompo(1, 'unknown*2')),
        ('keepSelectedComponents empty', [a], lambda: a.keepSelectedComponents([]), False),
        ('duplicateEachTupleNTimes', [], lambda: arr(d, nc=1).duplicateEachTupleNTimes(-d.int(1, 3))),
        ('explodeComponents of void', [], lambda: void.explodeComponents()),
        ('findClosestTupleId', [], lambda: arr(d, 'd', nc=2).findClosestTupleId(arr(d, 'd', nc=3))),
        ('minimalDistanceTo', [], lambda: arr(d, 'd', nc=2).minimalDistanceTo(arr(d, 'd', nc=3))),
        ('computeTupleIdsNearTuples', [], lambda: arr(d, 'd', nc=2).computeTupleIdsNearTuples(arr(d, 'd', nc=3), 1e-3)),
    ])


def umesh(d, dims=(1, 2, 3)):
    return to_mc(gen.any_mesh(d, dims, 2, quad=.2))


@check(n=2500, rule='every case')
def meshes(d):
    """calls on meshes with invalid arguments"""
    m = umesh(d)
    nc, nn, sd, md = m.getNumberOfCells(), m.getNumberOfNodes(), m.getSpaceDimension(), m.getMeshDimension()
    b, bn = bid(d, nc), bid(d, nn)
    bl = ids_with_bad(d, nc)
    U = mc.MEDCouplingUMesh
    m2 = m.deepCopy()
    g = mc.MEDCouplingCMesh('g')
    sizes = [d.int(2, 4) for _ in range(d.int(1, 3))]
    for k, s in enumerate(sizes):
        g.setCoordsAt(k, mc.DataArrayDouble(gen.incr(d, s)))
    gc, gn = g.getNumberOfCells(), g.getNumberOfNodes()
    cl = g.buildCurveLinear()
    t1 = m.buildUnstructured().computeTypesOfCells if 0 else None
    corrupt = m.deepCopy()
    c, ci = corrupt.getNodalConnectivity(), corrupt.getNodalConnectivityIndex()
    j = d.below(nc)
    p = L(ci)[j] + 1
    c.setIJ(p, 0, d.choice([nn, nn + 5, 2**31 - 1, -7]))
    pts = mc.DataArrayDouble([0.] * (sd + 1) * 2, 2, sd + 1)
    sub = m[[0]]
    run_table(d, [
        ('getNodeIdsOfCell', [m], lambda: m.getNodeIdsOfCell(b)),
        ('getTypeOfCell', [m], lambda: m.getTypeOfCell(b)),
        ('getCoordinatesOfNode', [m], lambda: m.getCoordinatesOfNode(bn)),
        ('getitem', [m], lambda: m[bl]),
        ('buildPartOfMySelf', [m], lambda: m.buildPartOfMySelf(bl, True)),
        ('buildPartOfMySelf zip', [m], lambda: m.buildPartOfMySelf(mc.DataArrayInt(bl), False)),
        ('buildPartOfMySelfSlice', [m], lambda: m.buildPartOfMySelfSlice(0, nc + d.int(1, 4), 1, True)),
        ('setPartOfMySelf ids', [m], lambda: m.setPartOfMySelf([b], sub)),
        ('setPartOfMySelf size', [m], lambda: m.setPartOfMySelf([0] * 2, sub)),
        ('setPartOfMySelfSlice', [m], lambda: m.setPartOfMySelfSlice(nc, nc + 1, 1, sub)),
        ('convertToPolyTypes', [m], lambda: m.convertToPolyTypes(bl)),
        ('renumberNodes size', [m], lambda: m.renumberNodes(list(range(nn + 3)), nn + 3), False),
        ('checkConsistency of corrupt', [], lambda: corrupt.checkConsistency()),
        ('checkFullyDefined', [], lambda: U('x', 2).checkFullyDefined()),
        ('checkConsistencyLight of void', [], lambda: U('x', 2).checkConsistency()),
        ('insertNextCell dim', [], lambda: alloc(md).insertNextCell(mc.NORM_TETRA4 if md != 3 else mc.NORM_TRI3, [0, 1, 2, 3][:4 if md != 3 else 3])),
        ('insertNextCell size', [], lambda: alloc(2).insertNextCell(mc.NORM_QUAD4, [0, 1, 2])),
        ('insertNextCell not allocated', [], lambda: U('x', 2).insertNextCell(mc.NORM_QUAD4, [0, 1, 2, 3])),
        ('MergeUMeshes', [m], lambda: U.MergeUMeshes([m, other_dim(d, md)])),
        ('MergeUMeshesOnSameCoords', [m, m2], lambda: U.MergeUMeshesOnSameCoords([m, m2])),
        ('FuseUMeshesOnSameCoords', [m, m2], lambda: U.FuseUMeshesOnSameCoords([m, m2], 0)),
        ('Intersect2DMeshes', [m], lambda: U.Intersect2DMeshes(m, umesh(d, (1, 3)), 1e-10)),
        ('buildSlice3D', [m], lambda: umesh(d, (1, 2)).buildSlice3D([0., 0., 0.], [0., 0., 1.], 1e-10)),
        ('buildSlice3D zero vector', [m], lambda: umesh(d, (3,)).buildSlice3D([0., 0., 0.], [0., 0., 0.], 1e-10)),
        ('getCellsContainingPoints', [m], lambda: m.getCellsContainingPoints(pts, 1e-10)),
        ('getCellsContainingPoint', [m], lambda: m.getCellsContainingPoint([0.] * (sd - 1) if sd > 1 else [], 1e-10)),
        ('setCoords none', [m], lambda: m.setCoords(None), False),
        ('simplexize', [m], lambda: m.simplexize(d.choice([-5, 77, 3]))),
        ('orderConsecutiveCells1D', [m], lambda: umesh(d, (2, 3)).orderConsecutiveCells1D()),
        ('orientCorrectly2DCells', [m], lambda: umesh(d, (1, 3)).orientCorrectly2DCells([0., 0., 1.], False)),
        ('orientCorrectlyPolyhedrons', [m], lambda: umesh(d, (1, 2)).orientCorrectlyPolyhedrons()),
        ('are2DCellsNotCorrectlyOriented', [m], lambda: umesh(d, (3,)).are2DCellsNotCorrectlyOriented([0., 0., 1.], False)),
        ('tetrahedrize', [m], lambda: umesh(d, (1, 2)).tetrahedrize(mc.PLANAR_FACE_5)),
        ('buildBoundaryMesh 0', [m], lambda: U('x', 2).buildBoundaryMesh(False)),
        ('getDistributionOfTypes', [], lambda: U('x', 2).getDistributionOfTypes()),
        ('checkTypeConsistencyAndContig', [m], lambda: m.checkTypeConsistencyAndContig([0, -1], [])),
        ('translate', [m], lambda: m.translate([1.] * (sd - 1) if sd > 1 else [])),
        ('rotate', [m], lambda: m.rotate([1.] if sd > 1 else [], [], 1.)),
        ('scale', [m], lambda: m.scale([1.] * (sd - 1) if sd > 1 else [], 2.)),
        ('duplicateNodes', [m], lambda: m.duplicateNodes([bn])),
        ('buildPartOfMySelfNode', [m], lambda: m.buildPartOfMySelfNode([bn], True), False),
        ('fillCellIdsToKeepFromNodeIds', [m], lambda: m.getCellIdsFullyIncludedInNodeIds([bn]), False),
        ('findNodesOnPlane', [m], lambda: umesh(d, (3,)).findNodesOnPlane([0., 0.], [0., 1.], 1e-6)),
        ('computeNbOfNodesPerCell', [], lambda: U('x', 2).computeNbOfNodesPerCell()),
        ('mergeNodes of void', [], lambda: U('x', 2).mergeNodes(1e-10)),
        ('checkDeepEquivalWith', [m], lambda: m.checkDeepEquivalWith(other_dim(d, md), 0, 1e-10)),
        ('checkGeoEquivalWith', [m], lambda: m.checkGeoEquivalWith(other_dim(d, md), 0, 1e-10)),
        ('distanceToPoint', [m], lambda: umesh(d, (3,)).distanceToPoint([0., 0.])),
        ('extrude', [m], lambda: m.buildExtrudedMesh(umesh(d, (2, 3)), 0)),
        ('g setCoordsAt', [g], lambda: g.setCoordsAt(0, mc.DataArrayDouble([0., 1., 2., 3.], 2, 2))),
        ('g setCoordsAt rank', [g], lambda: g.setCoordsAt(d.choice([-1, 3, 7]), mc.DataArrayDouble([0., 1.]))),
        ('g getCoordsAt', [g], lambda: g.getCoordsAt(d.choice([-1, 3, 7]))),
        ('g getLocationFromCellId', [g], lambda: g.getLocationFromCellId(bid(d, gc))),
        ('g getLocationFromNodeId', [g], lambda: g.getLocationFromNodeId(bid(d, gn))),
        ('g getCellIdFromPos', [g], lambda: g.getCellIdFromPos(d.int(50, 60), 50, 50), False),
        ('g buildPart', [g], lambda: g.buildPart([bid(d, gc)])),
        ('g not increasing', [], lambda: notinc(d).checkConsistency()),
        ('g getCellsContainingPoint', [g], lambda: g.getCellsContainingPoint([0.] * (len(sizes) - 1), 1e-10)),
        ('cl setNodeGridStructure', [cl], lambda: badcl(cl, sizes).checkConsistencyLight()),
        ('cl getCoordinatesOfNode', [cl], lambda: cl.getCoordinatesOfNode(bid(d, gn))),
        ('BuildStructuredPart', [], lambda: mc.MEDCouplingStructuredMesh.BuildExplicitIdsFrom([2, 3], [(0, 2), (0, d.int(4, 9))])),
        ('BuildExplicitIdsFrom negative', [], lambda: mc.MEDCouplingStructuredMesh.BuildExplicitIdsFrom([2, 3], [(-1, 2), (0, 2)])),
        ('skyline', [], lambda: mc.MEDCouplingSkyLineArray(mc.DataArrayInt([0, 2, d.int(9, 99)]), mc.DataArrayInt([1, 2, 3])).checkSuperIndex('x') if 0 else mc.MEDCouplingSkyLineArray(mc.DataArrayInt([0, 2, 3]), mc.DataArrayInt([1, 2, 3])).getSimplePackSafe(bid(d, 2))),
        ('convertNodalConnectivityToStaticGeoTypeMesh', [], lambda: mixed().convertIntoSingleGeoTypeMesh()),
        ('1sgtu setNodalConnectivity', [], lambda: sgt(mc.DataArrayInt([0, 1, 2, 3])).checkConsistency()),
        ('1sgtu range', [], lambda: sgt(mc.DataArrayInt([0, 1, d.choice([-1, 3, 99])])).checkConsistency()),
        ('ToLowerDim', [], lambda: mc.MEDCouplingUMesh.Build0DMeshFromCoords(mc.DataArrayDouble([0., 1.])).buildDescendingConnectivity(), False),
    ])


def alloc(md):
    u = mc.MEDCouplingUMesh('x', md)
    u.allocateCells(1)
    u.setCoords(mc.DataArrayDouble(4, 3))
    return u


def mixed():
    u = mc.MEDCouplingUMesh('x', 2)
    u.setCoords(mc.DataArrayDouble([0.] * 12, 4, 3))
    u.allocateCells(2)
    u.insertNextCell(mc.NORM_TRI3, [0, 1, 2])
    u.insertNextCell(mc.NORM_QUAD4, [0, 1, 2, 3])
    return u


def sgt(c):
    s = mc.MEDCoupling1SGTUMesh('s', mc.NORM_TRI3)
    s.setCoords(mc.DataArrayDouble([0.] * 9, 3, 3))
    s.setNodalConnectivity(c)
    return s


def other_dim(d, md):
    return umesh(d, [k for k in (1, 2, 3) if k != md])


def notinc(d):
    g = mc.MEDCouplingCMesh()
    g.setCoords(mc.DataArrayDouble(d.choice([[0., 0.], [1., 0.], [0., 1., .5]])))
    return g


def badcl(cl, sizes):
    c = cl.deepCopy()
    c.setNodeGridStructure([s + 1 for s in sizes])
    return c


@check(n=2500, rule='every case')
def others(d):
    """calls on fields and interpolators with invalid arguments"""
    disc = d.choice(['cell', 'node', 'gauss', 'gne'])
    F = fields.field(d, disc, 'one')
    m = to_mc(F.pm)
    f = F.build(m)
    n, nc, nbc = f.getArray().getNumberOfTuples(), F.nc, m.getNumberOfCells()
    D = mc.MEDCouplingFieldDouble
    bc = bid(d, nc)
    f2 = F.build(m.deepCopy())
    sd = m.getSpaceDimension()

    def wrong():
        g = D(fields.DISC[disc], mc.ONE_TIME)
        g.setMesh(m)
        if disc == 'gauss':
            fields.set_locs(g, F)
        g.setArray(mc.DataArrayDouble(n + d.choice([1, 5] + ([-1] if n else [])), nc))
        g.getArray().fillWithZero()
        return g

    def nomesh():
        g = D(fields.DISC[disc], mc.ONE_TIME)
        g.setArray(f.getArray())
        return g

    def noarr():
        g = D(fields.DISC[disc], mc.ONE_TIME)
        g.setMesh(m)
        return g
    oth = fields.field(d, 'node' if disc == 'cell' else 'cell', 'one', nc=nc, pm=F.pm if disc in ('cell', 'node') else None)
    om = m if oth.pm is F.pm else to_mc(oth.pm)
    fo = oth.build(om)
    ext = fields.field(d, disc, 'one', nc=nc + 1, pm=F.pm)

    def remap(x, y, method='P0P0'):
        r = MR()
        r.prepare(x, y, method)
        return r

    def MR():
        return mc.MEDCouplingRemapper()
    surf = to_mc(gen.any_mesh(d, (2,), 2))
    vol = to_mc(gen.any_mesh(d, (3,), 1))
    LINEAR = (mc.NORM_TRI3, mc.NORM_QUAD4, mc.NORM_TETRA4, mc.NORM_HEXA8, mc.NORM_PENTA6, mc.NORM_PYRA5)
    if any(t not in LINEAR for t in list(vol.getAllGeoTypes()) + list(surf.getAllGeoTypes())):      # see demo_2d3d
        vol, flat = unitcube(), unitcube().buildDescendingConnectivity()[0]
    else:
        flat = surf
    run_table(d, [
        ('checkConsistencyLight size', [m], lambda: wrong().checkConsistencyLight()),
        ('checkConsistencyLight no mesh', [], lambda: nomesh().checkConsistencyLight()),
        ('checkConsistencyLight no array', [], lambda: noarr().checkConsistencyLight()),
        ('no mesh integral', [], lambda: nomesh().integral(False)),
        ('no array accumulate', [], lambda: noarr().accumulate()),
        ('no array max', [], lambda: noarr().getMaxValue()),
        ('no array +', [f], lambda: f + noarr()),
        ('no mesh getValueOn', [], lambda: nomesh().getValueOn([0.] * sd)),
        ('no mesh buildMeasureField', [], lambda: nomesh().buildMeasureField(False)),
        ('add other mesh', [f, f2], lambda: f + f2),
        ('sub other mesh', [f, f2], lambda: f - f2),
        ('+= other mesh', [f, f2], lambda: f.__iadd__(f2)),
        ('*= other disc', [f, fo], lambda: f.__imul__(fo)),
        ('add other disc', [f, fo], lambda: D.AddFields(f, fo)),
        ('merge other disc', [f, fo], lambda: D.MergeFields(f, fo)),
        ('meld other disc', [f, fo], lambda: D.MeldFields(f, fo)),
        ('max other disc', [f, fo], lambda: D.MaxFields(f, fo)),
        ('components', [f], lambda: f + ext.build(m) if nc > 1 else 1 / 0 if 0 else D.MergeFields(f, ext.build(m))),
        ('getValueOn coords', [f], lambda: f.getValueOn([0.] * (sd - 1) if sd > 1 else [])),
        ('getValueOn outside', [f], lambda: f.getValueOn([1e9] * sd)),
        ('getValueOnMulti', [f], lambda: f.getValueOnMulti(mc.DataArrayDouble([0.] * 2 * (sd + 1), 2, sd + 1))),
        ('getWeightedAverageValue', [f], lambda: f.getWeightedAverageValue(bc)),
        ('normL1', [f], lambda: f.normL1(bc)),
        ('normL2', [f], lambda: f.normL2(bc)),
        ('integral', [f], lambda: f.integral(bc, True)),
        ('keepSelectedComponents', [f], lambda: f.keepSelectedComponents([bc])),
        ('setSelectedComponents', [f], lambda: f.setSelectedComponents(ext.build(m), [bc] * (nc + 1))),
        ('buildSubPart', [f], lambda: f.buildSubPart([bid(d, nbc)])),
        ('getitem', [f], lambda: f[[bid(d, nbc)]]),
        ('applyFunc', [f], lambda: f.applyFunc(1, d.choice(['x+', '(x', 'foo(x)', '', ')']))),
        ('applyFunc vars', [f], lambda: f.applyFunc(1, '+'.join('uvwxyzt'[:nc + 1]))),
        ('setGaussLocalizationOnCells ids', [f], lambda: gl(f, [bid(d, nbc)])),
        ('setGaussLocalizationOnType', [f], lambda: f.setGaussLocalizationOnType(m.getTypeOfCell(0), [0.], [0.], [1.])),
        ('setGaussLocalizationOnCells sizes', [f], lambda: f.setGaussLocalizationOnCells([0], [0.], [0., 1., 2., 3.], [1.] * 3)),
        ('getGaussLocalization', [f], lambda: f.getGaussLocalization(bid(d, 0 if disc != 'gauss' else len(F.locs)))),
        ('getGaussLocalizationIdOfOneCell', [f], lambda: f.getGaussLocalizationIdOfOneCell(bid(d, nbc))),
        ('fillFromAnalytic', [f], lambda: f.fillFromAnalytic(1, 'foo(x)')),
        ('checkCoherency time', [f], lambda: lin(f).checkConsistencyLight()),
        ('doublyContracted', [f], lambda: f.doublyContractedProduct() if nc != 6 else 1 / 0),
        ('determinant', [f], lambda: f.determinant()),
        ('eigenVectors', [f], lambda: f.eigenVectors()),
        ('extractSlice3D', [f], lambda: D(mc.ON_CELLS).extractSlice3D([0., 0., 0.], [0., 0., 1.], 1e-6)),
        ('remapper dims', [surf, vol], lambda: remap(flat, vol), False),
        ('remapper method', [surf, surf], lambda: remap(surf, surf, d.choice(['P0P7', 'foo', '', 'P0', 'P0P0P0']))),
        ('remapper not prepared', [f], lambda: MR().transferField(f, 0.)),
        ('remapper nature', [f], lambda: nonature(d, surf, remap)),
        ('remapper wrong mesh', [f], lambda: wrongmesh(d, surf, vol, remap)),
        ('remapper option', [], lambda: MR().setOptionInt('foo', 1), False),
        ('remapper option string', [], lambda: MR().setIntersectionType(99), False),
    ])


def gl(f, ids):
    t = f.getMesh().getTypeOfCell(0)
    rc = mc.MEDCouplingGaussLocalization.GetDefaultReferenceCoordinatesOf(t).getValues()
    n = len(rc) // fields.ref_nb(t)
    f.setGaussLocalizationOnCells(ids, rc, [0.] * n, [1.])


def lin(f):
    g = mc.MEDCouplingFieldDouble(mc.ON_CELLS, mc.LINEAR_TIME)
    g.setMesh(f.getMesh())
    g.setArray(mc.DataArrayDouble([0.] * f.getMesh().getNumberOfCells()))
    return g


def nonature(d, surf, remap):
    f = mc.MEDCouplingFieldDouble(mc.ON_CELLS)
    f.setMesh(surf)
    f.setArray(mc.DataArrayDouble([0.] * surf.getNumberOfCells()))
    return remap(surf, surf).transferField(f, 0.)


def wrongmesh(d, surf, vol, remap):
    f = mc.MEDCouplingFieldDouble(mc.ON_CELLS)
    f.setMesh(vol)
    f.setNature(mc.IntensiveMaximum)
    f.setArray(mc.DataArrayDouble([0.] * (surf.getNumberOfCells() + 1)))
    return remap(surf, surf).transferField(f, 0.)


def unitcube():
    g = mc.MEDCouplingCMesh()
    g.setCoords(*[mc.DataArrayDouble([0., 1.])] * 3)
    return g.buildUnstructured()


def demo_2d3d():
    """preparing a 2D/3D interpolation on a cell that is not supported (here HEXGP12) ends the process"""
    import math
    import os
    pid = os.fork()
    if pid == 0:
        os.dup2(os.open('/dev/null', os.O_WRONLY), 2)
        s = mc.MEDCouplingUMesh('s', 2)
        s.setCoords(mc.DataArrayDouble([0., 0., .5, 1., 0., .5, 0., 1., .5], 3, 3))
        s.allocateCells(1)
        s.insertNextCell(mc.NORM_TRI3, [0, 1, 2])
        x = mc.MEDCouplingUMesh('x', 3)
        x.setCoords(mc.DataArrayDouble([(math.cos(k * math.pi / 3), math.sin(k * math.pi / 3), z) for z in (0., 1.) for k in range(6)]))
        x.allocateCells(1)
        x.insertNextCell(mc.NORM_HEXGP12, [0, 5, 4, 3, 2, 1, 6, 11, 10, 9, 8, 7])
        try:
            mc.MEDCouplingRemapper().prepare(s, x, 'P0P0')
        except mc.InterpKernelException:
            pass
        os._exit(0)
    return os.waitpid(pid, 0)[1] != 0
