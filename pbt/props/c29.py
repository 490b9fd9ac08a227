"""C29 - fields written in a MED file and read back."""
from medio import *
import fields
from fields import DISC, CLS
from engine import check

F1 = {'double': 'MEDFileField1TS', 'float': 'MEDFileFloatField1TS', 'int32': 'MEDFileInt32Field1TS', 'int64': 'MEDFileInt64Field1TS'}
FM = {'double': 'MEDFileFieldMultiTS', 'float': 'MEDFileFloatFieldMultiTS', 'int32': 'MEDFileInt32FieldMultiTS', 'int64': 'MEDFileInt64FieldMultiTS'}


def cls(k):
    return getattr(ML(), k)


def sup(d, discs, nmax=2):
    """MEDFileUMesh and the supports [(level, pm, mesh)]"""
    lin = any(x in ('gauss', 'gne') for x in discs)
    for _ in range(20):
        pm = gen.any_mesh(d, (1, 2, 3), nmax, quad=.2, surf=True)
        if not (lin and any(t in fields.POLY or t in (ref.HEXGP12, ref.SEG4) for t, c in pm.cells)):
            break
    else:
        d.assume(False)
    m = to_mc(pm)
    m.sortCellsInMEDFileFrmt()
    nm = d.choice(WORDS)
    m.setName(nm)
    mm = ML().MEDFileUMesh()
    mm.setMeshAtLevel(0, m)
    out = [(0, from_mc(m), m)]
    if pm.md > 1 and d.bool(.4):
        f = m.buildDescendingConnectivity()[0]
        keep = sorted(d.subset(f.getNumberOfCells()))
        if keep:
            f = f[arr_i(keep)]
            f.sortCellsInMEDFileFrmt()
            q = from_mc(f)
            f.setName(nm)
            mm.setMeshAtLevel(-1, f)
            if not (lin and any(t in fields.POLY or t in (ref.HEXGP12, ref.SEG4) for t, c in q.cells)):
                out.append((-1, q, f))
    mm.setName(nm)
    return mm, out


def info(d, nc):
    return [d.choice(['X [m]', 'Y', '', 'temp [K]', 'a b [m.s-1]'])[:16] for _ in range(nc)]


def series(d, sups, disc, kind, name, nt=None):
    lev, pm, m = sups[0] if disc == 'node' else d.choice(sups)
    nc = d.int(1, 4)
    inf = info(d, nc)
    unit = d.choice(['', 's', 'ms'])
    steps = []
    keys = set()
    glocs = None
    for k in range(nt or 1):
        key = (d.int(-1, 9), d.int(-1, 3))
        if key in keys:
            continue
        keys.add(key)
        locs = loc_of = None
        if disc == 'gauss':
            locs, loc_of = glocs = glocs or fields.gauss_locs(d, pm)
            for t in set(t for t, c in pm.cells):       # the cells of a type are sorted by localization
                ids = [i for i, (u, c) in enumerate(pm.cells) if u == t]
                for i, l in zip(ids, sorted(loc_of[i] for i in ids)):
                    loc_of[i] = l
        n = fields.ntup(pm, disc, locs, loc_of)
        if kind == 'float':
            rows = [tuple(np.float32(d.sint(64) / 4.) for _ in range(nc)) for _ in range(n)]
        elif kind == 'double' and d.bool(.3):
            rows = [tuple(d.real() for _ in range(nc)) for _ in range(n)]
        else:
            rows = fields.rows_for(d, n, nc, kind)
        tm = dict(td='one', t0=(d.sint(80) / 8., key[0], key[1]), unit=unit, tol=1e-12)
        steps.append(fields.Fld(pm, disc, tm, [rows], nc, inf, kind, locs, loc_of, name))
    steps.sort(key=lambda s: s.tm['t0'][1:])
    return lev, m, steps


def same(d, g, s, m, what, mesh=True):
    """field read g, model s on mesh m"""
    eq(d, g.getName(), s.name, what + ': name')
    eq(d, g.getTypeOfField(), DISC[s.disc], what + ': discretization')
    t, it, od = g.getTime()
    eq(d, (t, it, od), s.tm['t0'], what + ': time')
    eq(d, g.getTimeUnit(), s.tm['unit'], what + ': time unit')
    eq(d, list(g.getArray().getInfoOnComponents()), s.infos, what + ': components')
    got = [tuple(x) for x in g.getArray().toNumPyArray().reshape(-1, s.nc).tolist()]
    eq(d, got, [tuple(r) for r in s.arrays[0]], what + ': values')
    if mesh:
        ok, why = g.getMesh().isEqualIfNotWhy(m, 1e-15)
        d.check(ok, what + ': mesh: %s' % why)
    if s.disc == 'gauss':
        for i, l in enumerate(s.loc_of):
            lo = g.getGaussLocalization(g.getGaussLocalizationIdOfOneCell(i))
            t, rc, gc, w = s.locs[l]
            eq(d, (lo.getType(), tuple(lo.getRefCoords()), tuple(lo.getGaussCoords()), tuple(lo.getWeights())), (t, tuple(rc), tuple(gc), tuple(w)), what + ': localization of cell %d' % i)


def read_ts(s, lev, mm, m, name):
    f1 = cls(F1[s.kind])(name, s.name, s.tm['t0'][1], s.tm['t0'][2])
    return f1


def kinds(d):
    return d.weighted([(5, 'double'), (1, 'float'), (2, 'int32'), (1, 'int64')])


def discs(d):
    return d.weighted([(3, 'cell'), (3, 'node'), (3, 'gauss'), (2, 'gne')])


def describe(s):
    return '%s %s %d components %d values at %s' % (s.kind, s.disc, s.nc, len(s.arrays[0]), s.tm['t0'])


@check(n=300, rule='several types of cells, several components or Gauss points')
def whole(d):
    """one field on a whole support"""
    disc, kind = discs(d), kinds(d)
    mm, sups = sup(d, [disc])
    lev, m, (s,) = series(d, sups, disc, kind, d.choice(WORDS))
    d.nontrivial(s.nc > 1 or len(m.getAllGeoTypes()) > 1 or disc in ('gauss', 'gne'))
    d.sample(describe(s))
    f = s.build(m)
    with scratch():
        mm.write('f.med', 2)
        f1 = cls(F1[kind])()
        f1.setFieldNoProfileSBT(f)
        if disc == 'gauss' and len(s.name) > 30:        # the names of the localizations may be too long: refused
            try:
                f1.write('f.med', 0)
            except ML().InterpKernelException:
                return
            s2 = cls(F1[kind])('f.med', s.name)
            same(d, s2.field(mm), s, m, 'read')
            return
        same(d, f1.getFieldOnMeshAtLevel(DISC[disc], lev, mm), s, m, 'before writing')
        f1.write('f.med', 0)
        r = cls(F1[kind])('f.med', s.name, s.tm['t0'][1], s.tm['t0'][2]) if d.bool() else cls(F1[kind])('f.med', s.name) if d.bool() else cls(F1[kind])('f.med')
        same(d, r.getFieldOnMeshAtLevel(DISC[disc], lev, mm), s, m, 'read')
        same(d, r.getFieldAtLevel(DISC[disc], lev), s, m, 'read at level')
        same(d, r.field(mm), s, m, 'field()')
        eq(d, (r.getTime()[2], r.getTime()[0], r.getTime()[1]), s.tm['t0'], 'time of MEDFileField1TS')
        eq(d, r.getMeshName(), m.getName(), 'name of the mesh')
        eq(d, r.getNonEmptyLevels()[1] if disc != 'node' else [0], [0] if True else None, 'levels of the field') if lev == 0 else None
        c = r.deepCopy()
        same(d, c.field(mm), s, m, 'deepCopy')
        c.write('g.med', 2)
        mm.write('g.med', 0)
        same(d, cls(F1[kind])('g.med', s.name).field(mm), s, m, 'second generation')
        # the basic interface
        if kind in ('double', 'int32', 'int64', 'float'):
            f2 = s.build(m)
            ML().WriteField('h.med', f2, True)
            r = ML().ReadField('h.med', s.name) if d.bool() else ML().ReadField(DISC[disc], 'h.med', m.getName(), 0, s.name, s.tm['t0'][1], s.tm['t0'][2])
            same(d, r, s, m, 'basic interface')
            eq(d, list(ML().GetAllFieldNames('h.med')), [s.name], 'GetAllFieldNames')
            eq(d, [tuple(x[0]) + (x[1],) if isinstance(x[0], (tuple, list)) else tuple(x) for x in ML().GetAllFieldIterations('h.med', s.name)], [(s.tm['t0'][1], s.tm['t0'][2], s.tm['t0'][0])], 'GetAllFieldIterations')
        # conversions of types of values
        if kind == 'double' and all(abs(x) < 1e9 and float(x).is_integer() for r in s.arrays[0] for x in r):
            for to in ('convertToInt',):
                i = getattr(f1, to)()
                b = i.convertToDouble()
                same(d, b.field(mm), s, m, 'converted to integers and back')


@check(n=300, rule='a profile that is not the whole support')
def profiles(d):
    """fields on part of a support"""
    disc, kind = discs(d), kinds(d)
    mm, sups = sup(d, [disc])
    lev, m, (s,) = series(d, sups, disc, kind, 'field')
    n = m.getNumberOfNodes() if disc == 'node' else m.getNumberOfCells()
    ids = sorted(d.subset(n))
    d.assume(ids)
    per = fields.per_cell(s.pm, disc, s.locs, s.loc_of)
    rows = s.arrays[0]
    if per is None:
        part = [rows[i] for i in ids]
    else:
        off = [0]
        for x in per:
            off.append(off[-1] + x)
        part = [r for i in ids for r in rows[off[i]:off[i + 1]]]
    d.nontrivial(len(ids) < n)
    d.sample('%s, %d entities of %d' % (describe(s), len(ids), n))
    f = CLS[kind](DISC[disc], mc.ONE_TIME)
    f.setName(s.name)
    f.setArray(fields.array(kind, part, s.nc, s.infos))
    f.setTime(*s.tm['t0'])
    f.setTimeUnit(s.tm['unit'])
    if disc != 'node':
        sub = m[arr_i(ids)]
        f.setMesh(sub)
        if disc == 'gauss':
            for k, (t, rc, gc, w) in enumerate(s.locs):
                mine = [j for j, i in enumerate(ids) if s.loc_of[i] == k]
                if mine:
                    f.setGaussLocalizationOnCells(mine, rc, gc, w)
        f.checkConsistencyLight()
    pfl = arr_i(ids, d.choice(['pfl', 'a profile']))
    with scratch():
        mm.write('f.med', 2)
        f1 = cls(F1[kind])()
        f1.setFieldProfile(f, mm, lev, pfl)
        f1.write('f.med', 0)
        lazy = d.bool(.3)
        for what, r in (('before writing', f1), ('read', cls(F1[kind])('f.med', s.name, s.tm['t0'][1], s.tm['t0'][2], not lazy))):
            if lazy and r is not f1:
                r.loadArrays() if d.bool() else r.loadArraysIfNecessary()
            a, p = r.getFieldWithProfile(DISC[disc], lev, mm)
            got = [tuple(x) for x in a.toNumPyArray().reshape(-1, s.nc).tolist()]
            pl = list(range(n)) if p is None else L(p)
            eq(d, pl, ids, what + ': profile')
            if disc != 'gauss' or len(s.locs) == len(set(x[0] for x in s.locs)):
                eq(d, got, [tuple(x) for x in part], what + ': values on the profile')
            if disc == 'node':
                continue
            g = r.getFieldOnMeshAtLevel(DISC[disc], lev, mm)
            gq, sq = from_mc(g.getMesh()), from_mc(sub)
            eq(d, [(t, [gq.xyz[v] if v >= 0 else v for v in c]) for t, c in gq.cells], [(t, [sq.xyz[v] if v >= 0 else v for v in c]) for t, c in sq.cells], what + ': cells of the field')
            got = [tuple(x) for x in g.getArray().toNumPyArray().reshape(-1, s.nc).tolist()]
            eq(d, got, [tuple(x) for x in part], what + ': values of the field')
            eq(d, (g.getTime()[0], g.getTime()[1], g.getTime()[2]), s.tm['t0'], what + ': time')
            if disc == 'gauss':
                for j, i in enumerate(ids):
                    lo = g.getGaussLocalization(g.getGaussLocalizationIdOfOneCell(j))
                    t, rc, gc, w = s.locs[s.loc_of[i]]
                    eq(d, (lo.getType(), tuple(lo.getRefCoords()), tuple(lo.getGaussCoords()), tuple(lo.getWeights())), (t, tuple(rc), tuple(gc), tuple(w)), what + ': localization')


@check(n=200, rule='several time steps or fields')
def multi(d):
    """several fields and time steps, lazy loading, whole file"""
    dk = [(discs(d), kinds(d)) for _ in range(d.int(1, 3))]
    mm, sups = sup(d, [x for x, _ in dk])
    fs = []
    for k, (disc, kind) in enumerate(dk):
        fs.append(series(d, sups, disc, kind, 'f%d' % k, d.int(1, 4)))
    d.nontrivial(len(fs) > 1 or len(fs[0][2]) > 1)
    d.sample('%s' % [(s[0].kind, s[0].disc, len(s)) for _, _, s in fs])

    if __import__("os").environ.get("DBG"):
        for l, m, s in fs:
            print(s[0].name, l, [(x.disc, x.tm, x.locs, x.loc_of) for x in s], [t for t, c in s[0].pm.cells], file=__import__("sys").stderr)

    def verify(path, what):
        eq(d, sorted(ML().GetAllFieldNames(path)), sorted(s[0].name for _, _, s in fs[:done]), what + ': names')
        for lev, m, s in fs[:done]:
            mode = d.below(3)
            r = cls(FM[s[0].kind])(path, s[0].name, mode != 1)
            eq(d, sorted(tuple(x) for x in r.getIterations()), [x.tm['t0'][1:] for x in s], what + ': iterations')
            eq(d, sorted((a, b, t) for a, b, t in r.getTimeSteps()), sorted((x.tm['t0'][1], x.tm['t0'][2], x.tm['t0'][0]) for x in s), what + ': time steps')
            if mode == 1:
                if d.bool():
                    r.loadArrays()
                else:
                    r.loadArraysIfNecessary()
            if mode == 2:
                r.unloadArrays()
                r.loadArrays()
            for x in s:
                it, od = x.tm['t0'][1:]
                same(d, r.getFieldOnMeshAtLevel(DISC[x.disc], it, od, lev, mm), x, m, what + ': step %s' % ((it, od),))
                y = r.getTimeStep(it, od) if d.bool() or (it, od) == (-1, -1) else cls(F1[x.kind])(path, x.name, it, od)
                same(d, y.field(mm), x, m, what + ': one step')
    done = 0
    with scratch():
        mm.write('f.med', 2)
        for lev, m, s in fs:
            ts = cls(FM[s[0].kind])()
            bystep = d.bool(.3)
            order = d.perm(len(s))
            for k in order:
                if bystep:
                    f1 = cls(F1[s[k].kind])()
                    f1.setFieldNoProfileSBT(s[k].build(m))
                    f1.write('f.med', 0)
                else:
                    ts.appendFieldNoProfileSBT(s[k].build(m))
            if not bystep:
                ts.write('f.med', 0)
            done += 1
            verify('f.med', 'field %d written' % done)
        data = ML().MEDFileData('f.med')
        data.write('g.med', 2)
        verify('g.med', 'MEDFileData')
        ok, why = ML().MEDFileMesh.New('g.med').isEqual(mm, 0.)
        d.check(ok, 'mesh of MEDFileData: %s' % why)
        allf = ML().MEDFileFields('f.med', d.bool())
        eq(d, sorted(allf.getFieldsNames()), sorted(s[0].name for _, _, s in fs), 'MEDFileFields')
        allf.loadArraysIfNecessary()
        allf.write('h.med', 2)
        mm.write('h.med', 0)
        verify('h.med', 'MEDFileFields')
        # part of the entities
        lev, m, s = d.choice(fs)
        if s[0].disc == 'cell':
            t = d.choice(list(m.getAllGeoTypes()))
            r = cls(FM[s[0].kind]).LoadSpecificEntities('f.med', s[0].name, [(mc.ON_CELLS, t)])
            ids = [i for i, (u, c) in enumerate(s[0].pm.cells) if u == t]
            for x in s:
                a = r.getTimeStep(*x.tm['t0'][1:]).getUndergroundDataArray()
                eq(d, [tuple(v) for v in a.toNumPyArray().reshape(-1, x.nc).tolist()], [tuple(x.arrays[0][i]) for i in ids], 'LoadSpecificEntities')


@check(n=200, rule='several parameters or steps')
def params(d):
    """parameters and their time steps"""
    ps = {}
    P = ML().MEDFileParameters()
    for w in words(d, d.int(1, 3)):
        p = ML().MEDFileParameterMultiTS()
        p.setName(w)
        desc, unit = d.choice(['', 'a description']), d.choice(['', 's'])
        p.setDescription(desc)
        p.setTimeUnit(unit)
        st = {}
        for _ in range(d.int(1, 4)):
            k = (d.int(-1, 9), d.int(-1, 3))
            if k not in st:
                st[k] = (d.sint(80) / 8., d.real())
                p.appendValue(k[0], k[1], st[k][0], st[k][1])
        ps[w] = (desc, unit, st)
        P.pushParam(p)
    d.nontrivial(len(ps) > 1 or len(st) > 1)
    d.sample('%s' % ps)
    with scratch():
        if d.bool():
            P.write('f.med', 2)
        else:
            x = ML().MEDFileData()
            x.setParams(P)
            x.setMeshes(ML().MEDFileMeshes())
            x.setFields(ML().MEDFileFields())
            x.write('f.med', 2)
        for what, r in (('read', ML().MEDFileParameters('f.med')), ('copy', P.deepCopy()), ('data', ML().MEDFileData('f.med').getParams())):
            eq(d, sorted(r.getParamsNames()), sorted(ps), what + ': names')
            for w, (desc, unit, st) in ps.items():
                q = r[w] if what != 'one' else None
                eq(d, (q.getName(), q.getDescription(), q.getTimeUnit()), (w, desc, unit), what + ': attributes')
                got = {}
                for it, od, t in q.getTimeSteps():
                    got[(it, od)] = (t, q.getDoubleValue(it, od))
                eq(d, got, st, what + ': values of %s' % w)
        for w, (desc, unit, st) in ps.items():
            q = ML().MEDFileParameterMultiTS('f.med', w)
            eq(d, {(it, od): (t, q.getDoubleValue(it, od)) for it, od, t in q.getTimeSteps()}, st, 'one parameter')
