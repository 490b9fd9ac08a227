"""Field generators shared by the field properties."""
from common import *
from ref import *
import gen

DISC = {'cell': mc.ON_CELLS, 'node': mc.ON_NODES, 'gauss': mc.ON_GAUSS_PT, 'gne': mc.ON_GAUSS_NE, 'kr': mc.ON_NODES_KR, 'fe': mc.ON_NODES_FE}
TD = {'no': mc.NO_TIME, 'one': mc.ONE_TIME, 'const': mc.CONST_ON_TIME_INTERVAL, 'linear': mc.LINEAR_TIME}
POLY = (POLYGON, QPOLYG, POLYHED, POLYL)
CLS = {'double': mc.MEDCouplingFieldDouble, 'float': mc.MEDCouplingFieldFloat, 'int32': mc.MEDCouplingFieldInt32, 'int64': mc.MEDCouplingFieldInt64}
ARR = {'double': mc.DataArrayDouble, 'float': mc.DataArrayFloat, 'int32': mc.DataArrayInt32, 'int64': mc.DataArrayInt64}


def per_cell(pm, disc, locs=None, loc_of=None):
    """number of tuples of each cell, None for nodal fields"""
    if disc == 'cell':
        return [1] * pm.nc
    if disc == 'gne':
        return [len(c) for t, c in pm.cells]
    if disc == 'gauss':
        return [len(locs[l][3]) for l in loc_of]
    return None


def gauss_locs(d, pm):
    """(locs, loc_of): locs = [(type, ref coords, gauss coords, weights)], loc_of[cell]; several localizations per type are possible"""
    locs, loc_of, by = [], [None] * pm.nc, {}
    for t in sorted({t for t, c in pm.cells}):
        ids = [i for i, (u, c) in enumerate(pm.cells) if u == t]
        nl = 2 if len(ids) > 1 and d.bool(.3) else 1
        by[t] = (nl, ids)
    for t, (nl, ids) in by.items():
        rc = mc.MEDCouplingGaussLocalization.GetDefaultReferenceCoordinatesOf(t).getValues()
        nn = ref_nb(t)
        dim = len(rc) // nn
        grp = [[], []]
        for i in ids:
            grp[d.below(nl)].append(i)
        for g in grp:
            if g:
                n = d.int(1, 3)
                gs = []
                for _ in range(n):
                    w = [d.int(1, 4) for _ in range(nn)]
                    gs += [sum(w[k] * rc[k * dim + j] for k in range(nn)) / float(sum(w)) for j in range(dim)]
                for i in g:
                    loc_of[i] = len(locs)
                locs.append((t, rc, gs, [d.int(1, 8) / 8. for _ in range(n)]))
    return locs, loc_of


def ref_nb(t):
    return {SEG2: 2, SEG3: 3, TRI3: 3, TRI6: 6, TRI7: 7, QUAD4: 4, QUAD8: 8, QUAD9: 9, TETRA4: 4, PYRA5: 5, PENTA6: 6, HEXA8: 8, TETRA10: 10, PYRA13: 13, PENTA15: 15, PENTA18: 18, HEXA20: 20, HEXA27: 27, POINT1: 1}[t]


def td_of(d, td=None):
    td = d.choice(list(TD)) if td is None else td
    t0 = d.sint(40) / 8.
    return dict(td=td, t0=(t0, d.int(-1, 5), d.int(-1, 5)), t1=(t0 + d.int(6, 40) / 8., d.int(6, 9), d.int(-1, 5)), unit=d.choice(['', 's', 'ms']),
                tol=d.choice([1e-12, 1e-12, 1e-3, .5]))


def set_time(f, tm):
    f.setTimeUnit(tm['unit'])
    if hasattr(f, 'setTimeTolerance'):
        f.setTimeTolerance(tm['tol'])
    if tm['td'] == 'one':
        f.setTime(*tm['t0'])
    elif tm['td'] in ('const', 'linear'):
        f.setStartTime(*tm['t0'])
        f.setEndTime(*tm['t1'])


def get_time(f):
    td = {v: k for k, v in TD.items()}[f.getTimeDiscretization()]
    r = dict(td=td, unit=f.getTimeUnit(), tol=f.getTimeTolerance() if hasattr(f, 'getTimeTolerance') else 1e-12)
    if td == 'one':
        r['t0'] = tuple(f.getTime())
    elif td in ('const', 'linear'):
        r['t0'], r['t1'] = tuple(f.getStartTime()), tuple(f.getEndTime())
    return r


def want_time(tm):
    r = dict(td=tm['td'], unit=tm['unit'], tol=tm['tol'])
    if tm['td'] != 'no':
        r['t0'] = tm['t0']
    if tm['td'] in ('const', 'linear'):
        r['t1'] = tm['t1']
    return r


def mesh_for(d, disc, nmax=2, **kw):
    for _ in range(20):
        pm = gen.any_mesh(d, nmax=nmax, quad=kw.get('quad', .2), surf=kw.get('surf', True), points=False, dims=kw.get('dims', (1, 2, 3)))
        if disc in ('gauss', 'gne') and any(t in POLY or t in (HEXGP12, SEG4) for t, c in pm.cells):
            continue
        if disc == 'fe' and any(t in POLY or t in (HEXGP12, SEG4) for t, c in pm.cells):
            continue
        return pm
    raise Discard()


def array(kind, rows, nc, infos=None):
    if kind == 'double':
        a = Dbl(rows, nc)
    else:
        np_t = {'float': np.float32, 'int32': np.int32, 'int64': np.int64}[kind]
        a = ARR[kind](np.array([x for r in rows for x in r], dtype=np_t).copy()).deepCopy() if rows else ARR[kind].New()
        if rows:
            a.rearrange(nc)
        else:
            a.alloc(0, nc)
    if infos:
        a.setInfoOnComponents(infos)
    return a


class Fld:
    """model of a field"""
    def __init__(s, pm, disc, tm, arrays, nc, infos, kind='double', locs=None, loc_of=None, name='f', desc='', nature=mc.NoNature):
        s.__dict__.update(locals())
        s.np = per_cell(pm, disc, locs, loc_of)
        del s.__dict__['s']

    def __repr__(s):
        return '%s %s %s %dcomp %s locs=%r %r on %r' % (s.kind, s.disc, s.tm, s.nc, s.arrays, s.locs, s.loc_of, s.pm)

    def build(s, mesh, arrays=None):
        f = CLS[s.kind](DISC[s.disc], TD[s.tm['td']])
        f.setMesh(mesh)
        f.setName(s.name)
        f.setDescription(s.desc)
        set_locs(f, s)
        if s.nature != mc.NoNature:
            f.setNature(s.nature)
        set_time(f, s.tm)
        arrays = arrays or s.arrays
        f.setArray(array(s.kind, arrays[0], s.nc, s.infos))
        if s.tm['td'] == 'linear':
            f.setEndArray(array(s.kind, arrays[1], s.nc, s.infos))
        f.checkConsistencyLight()
        return f


def set_locs(f, s):
    for k, (t, rc, gc, w) in enumerate(s.locs or []):
        f.setGaussLocalizationOnCells([i for i, l in enumerate(s.loc_of) if l == k], rc, gc, w)


def ntup(pm, disc, locs, loc_of):
    n = per_cell(pm, disc, locs, loc_of)
    return pm.nn if n is None else sum(n)


def rows_for(d, n, nc, kind='double', nz=False, pos=False):
    out = []
    for i in range(n):
        r = []
        for j in range(nc):
            v = d.sint(32) if kind.startswith('int') else d.sint(32) / 4.
            if pos:
                v = abs(v)
            if (nz or pos) and v == 0:
                v = 2
            r.append(v)
        out.append(tuple(r))
    return out


def field(d, disc=None, td=None, nc=None, kind='double', nmax=2, nz=False, pos=False, pm=None, **kw):
    disc = disc or d.weighted([(3, 'cell'), (3, 'node'), (2, 'gauss'), (2, 'gne'), (1, 'kr')])
    pm = pm or mesh_for(d, disc, nmax, **kw)
    locs = loc_of = None
    if disc == 'gauss':
        locs, loc_of = gauss_locs(d, pm)
    nc = nc or d.int(1, 3)
    tm = td_of(d, td)
    n = ntup(pm, disc, locs, loc_of)
    arrays = [rows_for(d, n, nc, kind, nz, pos) for _ in range(2 if tm['td'] == 'linear' else 1)]
    return Fld(pm, disc, tm, arrays, nc, ['c%d [u%d]' % (i, i) for i in range(nc)], kind, locs, loc_of, d.choice(['f', 'field']), d.choice(['', 'de sc']),
               d.choice([mc.NoNature, mc.IntensiveMaximum, mc.ExtensiveConservation]) if disc == 'cell' else d.choice([mc.NoNature, mc.IntensiveMaximum]) if disc == 'node' else mc.NoNature)
