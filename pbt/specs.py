"""Objects built from plain specifications and dumps of objects through their getters (C27, C37)."""
import copy
from common import *
from ref import *
import gen, fields
from fields import Fld, field, mesh_for, array, rows_for, td_of, set_time, DISC, TD, CLS

FLOATS = ('double', 'float')
AK = {'double': mc.DataArrayDouble, 'float': mc.DataArrayFloat, 'int32': mc.DataArrayInt32, 'int64': mc.DataArrayInt64, 'char': mc.DataArrayAsciiChar, 'byte': mc.DataArrayByte}


def mk_array(s):
    a = AK[s['kind']].New()
    n, nc = s['nt'], s['nc']
    a.alloc(n, nc)
    if n * nc:
        if s['kind'] == 'float':
            a = mc.DataArrayFloat(np.array(s['v'], dtype=np.float32)).deepCopy()
            a.rearrange(nc)
        elif s['kind'] in ('double', 'int32', 'int64'):
            a.setValues(list(s['v']), n, nc)
        else:
            for i, x in enumerate(s['v']):
                a.setIJ(i // nc, i % nc, chr(x) if s['kind'] == 'char' else x)
    a.setName(s['name'])
    a.setInfoOnComponents(s['info'])
    return a


def dump_array(a):
    if a is None:
        return None
    return (type(a).__name__, a.getName(), list(a.getInfoOnComponents()), a.getNumberOfTuples(), a.getNumberOfComponents(), list(a.getValues()) if hasattr(a, 'getValues') else list(a.toStrArray()) if not a.getNumberOfComponents() else [a.getIJ(i, j) for i in range(a.getNumberOfTuples()) for j in range(a.getNumberOfComponents())])


def rnd_array(d, kind=None, nt=None, nc=None):
    kind = kind or d.choice(list(AK))
    nt = d.size(8) if nt is None else nt
    nc = nc or d.int(1, 4)
    if kind in FLOATS:
        v = [d.sint(40) / 8. for _ in range(nt * nc)]
    elif kind in ('char', 'byte'):
        v = [d.int(40, 120) for _ in range(nt * nc)]
    else:
        v = [d.sint(1000) for _ in range(nt * nc)]
    return dict(kind=kind, nt=nt, nc=nc, v=v, name=d.choice(['', 'a', 'nom']), info=[d.choice(['', 'X [m]', 'Y', 'Z [m/s]']) for _ in range(nc)])


def cpy(x):
    y = type(x).New()
    if hasattr(y, 'deepCopyFrom'):
        y.deepCopyFrom(x)
        return y
    return x.deepCopy()


def rnd_mesh(d):
    k = d.weighted([(4, 'u'), (1, 'c'), (1, 'i'), (1, 'cl'), (1, '1s'), (1, '1d')])
    s = dict(kind=k, name=d.choice(['', 'mesh']), desc=d.choice(['', 'a mesh']), unit=d.choice(['', 's']), time=(d.sint(20) / 4., d.int(-1, 4), d.int(-1, 4)))
    if k == 'u':
        pm = gen.any_mesh(d, nmax=2, quad=.3) if d.bool() else gen.random_topo(d, ncmax=6)
    elif k == '1s':
        pm = None
        while pm is None or not pm.cells or len({t for t, c in pm.cells}) != 1 or pm.cells[0][0] in (POLYGON, QPOLYG, POLYHED, POLYL):
            t = d.choice([SEG2, TRI3, QUAD4, TETRA4, HEXA8, SEG3, TRI6, PENTA6])
            nn = d.int(20, 24)
            pm = PM(3, dim_of(t), [(float(i), d.sint(8) / 4., d.sint(8) / 4.) for i in range(nn)], [(t, d.perm(nn)[:fields.ref_nb(t)]) for _ in range(d.int(1, 5))], 'm')
    elif k == '1d':
        t = d.choice([POLYGON, POLYHED, POLYL, QPOLYG])
        nn = d.int(20, 24)
        cells = []
        for _ in range(d.int(1, 5)):
            p = d.perm(nn)
            if t == POLYHED:
                c = p[:3] + [-1] + p[2:6] + [-1] + p[4:7]
            else:
                c = p[:2 * d.int(3, 5)]
            cells.append((t, c))
        pm = PM(3, {POLYGON: 2, QPOLYG: 2, POLYHED: 3, POLYL: 1}[t], [(float(i), d.sint(8) / 4., d.sint(8) / 4.) for i in range(nn)], cells, 'm')
    else:
        pm = None
    if pm is not None:
        s.update(sd=pm.sd, md=pm.md, xyz=[list(p) for p in pm.xyz], cells=[(t, list(c)) for t, c in pm.cells], info=[d.choice(['', 'X [m]', 'Y']) for _ in range(pm.sd)], cname=d.choice(['', 'coo']))
    elif k == 'c':
        sd = d.int(1, 3)
        s.update(axes=[[gen.incr(d, d.int(1, 5)), d.choice(['', 'X [m]'])] for _ in range(sd)])
    elif k == 'i':
        sd = d.int(1, 3)
        s.update(st=[d.int(1, 5) for _ in range(sd)], org=[d.sint(16) / 4. for _ in range(sd)], dx=[d.int(1, 16) / 4. for _ in range(sd)], axu=d.choice(['', 'm']))
    else:
        sd = d.int(1, 3)
        st = [d.int(2, 4) for _ in range(sd)]
        n = 1
        for x in st:
            n *= x
        sp = d.int(sd, 3)
        s.update(st=st, sd=sp, xyz=[[d.sint(16) / 4. for _ in range(sp)] for _ in range(n)], info=[d.choice(['', 'X [m]', 'Y']) for _ in range(sp)], cname=d.choice(['', 'coo']))
    return s


def dim_of(t):
    return {SEG2: 1, SEG3: 1, TRI3: 2, QUAD4: 2, TRI6: 2, TETRA4: 3, HEXA8: 3, PENTA6: 3}[t]


def mk_mesh(s):
    k = s['kind']
    if k in ('u', '1s', '1d'):
        m = to_mc(PM(s['sd'], s['md'], [tuple(p) for p in s['xyz']], s['cells'], s['name']))
        m.getCoords().setInfoOnComponents(s['info'])
        m.getCoords().setName(s['cname'])
        if k != 'u':
            m = m.buildUnstructured() if False else (mc.MEDCoupling1SGTUMesh(m) if k == '1s' else mc.MEDCoupling1DGTUMesh(m))
    elif k == 'c':
        m = mc.MEDCouplingCMesh()
        for i, (v, u) in enumerate(s['axes']):
            a = mc.DataArrayDouble(list(v))
            a.setInfoOnComponents([u])
            m.setCoordsAt(i, a)
    elif k == 'i':
        m = mc.MEDCouplingIMesh(s['name'], len(s['st']), s['st'], s['org'], s['dx'])
        m.setAxisUnit(s['axu'])
    else:
        m = mc.MEDCouplingCurveLinearMesh(s['name'])
        m.setCoords(Dbl(s['xyz'], s['sd']))
        m.getCoords().setInfoOnComponents(s['info'])
        m.getCoords().setName(s['cname'])
        m.setNodeGridStructure(s['st'])
    m.setName(s['name'])
    m.setDescription(s['desc'])
    m.setTimeUnit(s['unit'])
    m.setTime(*s['time'])
    return m


def dump_mesh(m):
    k = type(m).__name__
    r = [k, m.getName(), m.getDescription(), m.getTimeUnit(), tuple(m.getTime())]
    if k in ('MEDCouplingUMesh', 'MEDCoupling1SGTUMesh', 'MEDCoupling1DGTUMesh'):
        r += [m.getMeshDimension(), dump_array(m.getCoords()), list(m.getNodalConnectivity().getValues())]
        if k == 'MEDCouplingUMesh':
            r += [list(m.getAllGeoTypesSorted()) if hasattr(m, 'getAllGeoTypesSorted') else sorted(m.getAllGeoTypes())]
        if k != 'MEDCoupling1SGTUMesh':
            r += [list(m.getNodalConnectivityIndex().getValues())]
        if k != 'MEDCouplingUMesh':
            r += [m.getCellModelEnum()]
    elif k == 'MEDCouplingCMesh':
        r += [dump_array(m.getCoordsAt(i)) for i in range(m.getSpaceDimension())]
    elif k == 'MEDCouplingIMesh':
        r += [tuple(m.getNodeStruct()), tuple(m.getOrigin()), tuple(m.getDXYZ()), m.getAxisUnit()]
    elif k == 'MEDCouplingCurveLinearMesh':
        r += [tuple(m.getNodeGridStructure()), dump_array(m.getCoords())]
    elif k == 'MEDCouplingMappedExtrudedMesh':
        r += [dump_mesh(m.getMesh2D()), dump_mesh(m.getMesh1D()), dump_array(m.getMesh3DIds())]
    return r


def dump_locs(f):
    r = []
    for k in range(f.getNbOfGaussLocalization()):
        g = f.getGaussLocalization(k)
        r.append((g.getType(), list(g.getRefCoords()), list(g.getGaussCoords()), list(g.getWeights())))
    return r


def dump_field(f):
    r = [type(f).__name__, f.getName(), f.getDescription(), f.getTypeOfField(), f.getNature(), f.getTimeDiscretization(), f.getTimeUnit(), f.getTimeTolerance() if hasattr(f, 'getTimeTolerance') else 0]
    td = f.getTimeDiscretization()
    if td == mc.ONE_TIME:
        r.append(tuple(f.getTime()))
    elif td in (mc.CONST_ON_TIME_INTERVAL, mc.LINEAR_TIME):
        r += [tuple(f.getStartTime()), tuple(f.getEndTime())]
    r += [dump_array(a) for a in (f.getArrays() if hasattr(f, 'getArrays') else [f.getArray()])]
    if f.getTypeOfField() == mc.ON_GAUSS_PT:
        r.append(dump_locs(f))
        n = f.getMesh().getNumberOfCells()
        r.append([f.getGaussLocalizationIdOfOneCell(i) for i in range(n)])
    r.append(dump_mesh(f.getMesh()))
    return r


def build_f(s, pm=None, **kw):
    t = copy.copy(s)
    t.__dict__.update(kw)
    return t.build(to_mc(pm or s.pm))


def tmpl_dump(t):
    r = [t.getName(), t.getDescription(), t.getTypeOfField(), t.getNature()]
    if t.getTypeOfField() == mc.ON_GAUSS_PT:
        r += [[(g.getType(), list(g.getRefCoords()), list(g.getGaussCoords()), list(g.getWeights())) for g in [t.getGaussLocalization(k) for k in range(t.getNbOfGaussLocalization())]]]
        r += [[t.getGaussLocalizationIdOfOneCell(i) for i in range(t.getMesh().getNumberOfCells())]]
    return r + [dump_mesh(t.getMesh())]


def dump_amr(m):
    im = m.getImageMesh()
    r = [dump_mesh(im), []]
    for k in range(m.getNumberOfPatches()):
        p = m.getPatch(k)
        r[1].append((p.getBLTRRange(), list(p.getMesh().getFactors()), dump_amr(p.getMesh())))
    return r


def rnd_amr(d, m, dims, depth):
    used = []
    fac = [d.int(2, 3) for _ in dims]
    for _ in range(d.int(0, 2)):
        b = []
        for x in dims:
            lo = d.below(x)
            hi = d.int(lo + 1, x)
            b.append((lo, hi))
        if any(all(max(p[0], q[0]) < min(p[1], q[1]) for p, q in zip(b, o)) for o in used):
            continue
        used.append(b)
        m.addPatch(b, fac)
        if depth:
            rnd_amr(d, m[len(used) - 1].getMesh(), [(p[1] - p[0]) * f for p, f in zip(b, fac)], depth - 1)
