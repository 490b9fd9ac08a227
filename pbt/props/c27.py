"""C27: equality is exact, copies and serialization lose nothing.  Objects are built from plain specifications; an edit of the
specification makes the objects differ; dumps through the getters are the oracle for copies."""
import copy, pickle
from common import *
from ref import *
import gen, fields
from specs import FLOATS, AK, mk_array, dump_array, rnd_array, cpy, rnd_mesh, dim_of, mk_mesh, dump_mesh, dump_locs, dump_field, build_f, tmpl_dump, dump_amr, rnd_amr
from fields import Fld, field, mesh_for, array, rows_for, td_of, set_time, DISC, TD, CLS

def edit_array(d, s, eps):
    """(edited spec, 'str' | 'data' | 'same')"""
    s = dict(s, v=list(s['v']), info=list(s['info']))
    k = d.choice(['v', 'v', 'v', 'small', 'name', 'info', 'shape'])
    if k in ('v', 'small') and not s['v']:
        k = 'name'
    if k == 'small' and s['kind'] not in FLOATS:
        k = 'v'
    if k == 'v':
        i = d.below(len(s['v']))
        s['v'][i] += (eps * 2 if s['kind'] in FLOATS else 1) * d.choice([-1, 1]) * d.choice([1, 2, 7] if s['kind'] not in ('char', 'byte') else [1])
        return s, 'data'
    if k == 'small':
        i = d.below(len(s['v']))
        s['v'][i] += eps * .25 * d.choice([-1, 1])
        return s, 'same'
    if k == 'name':
        s['name'] += d.choice(['x', ' '])
        return s, 'str'
    if k == 'info':
        i = d.below(s['nc'])
        s['info'][i] = d.choice([s['info'][i] + 'q', 'W [kg]'])
        return s, 'str'
    if s['nt'] * s['nc'] and d.bool() and s['nt'] % 2 == 0 and s['nt'] > 1:
        s['nt'], s['nc'] = s['nt'] // 2, s['nc'] * 2
        s['info'] = s['info'] * 2
        return s, 'shape'
    else:
        s['nt'] += 1
        s['v'] += [50] * s['nc']
    return s, 'data'


def compare(d, a, b, kind, eps, what, nostr=True, why=True):
    """a, b differ by an edit of the given kind"""
    want = kind == 'same'
    for x, y, w in ((a, b, what), (b, a, what + ' (reversed)')):
        if x.isEqual(y, *eps) != want:
            d.fail('%s: isEqual is %r' % (w, not want))
        if why and hasattr(x, 'isEqualIfNotWhy'):
            r, reason = x.isEqualIfNotWhy(y, *eps)
            if bool(r) != want:
                d.fail('%s: isEqualIfNotWhy says %r (%s)' % (w, r, reason))
            if not want and not reason:
                d.fail('%s: isEqualIfNotWhy gives no reason' % w)
        if nostr and hasattr(x, 'isEqualWithoutConsideringStr'):
            if x.isEqualWithoutConsideringStr(y, *eps) != (kind in ('same', 'str')):
                d.fail('%s: isEqualWithoutConsideringStr is %r' % (w, kind not in ('same', 'str')))


def copies(d, a, dump, eps, what, ways, pick=True):
    want = dump(a)
    for w, fn in ways:
        c = fn(a)
        eq(d, dump(c), want, '%s of %s' % (w, what))
        if eps is not None:
            compare(d, a, c, 'same', eps, '%s of %s' % (w, what))
    if pick:
        for p in range(0, pickle.HIGHEST_PROTOCOL + 1):
            c = pickle.loads(pickle.dumps(a, p))
            eq(d, dump(c), want, 'pickle %d of %s' % (p, what))
            if eps is not None:
                compare(d, a, c, 'same', eps, 'pickle %d of %s' % (p, what))
    eq(d, dump(a), want, '%s after the copies' % what)


@check(n=6000, rule='at least two values')
def arrays(d):
    """arrays of every type: copies and pickles are equal, any single edit is seen by the comparisons"""
    s = rnd_array(d)
    eps = d.choice([1e-6, 1e-3, .25])
    ep = (eps,) if s['kind'] in FLOATS else ()
    a = mk_array(s)
    d.nontrivial(len(s['v']) > 1)
    d.label(s['kind'])
    d.sample(short(s, 200))
    eq(d, dump_array(a), (AK[s['kind']].__name__, s['name'], s['info'], s['nt'], s['nc'], [chr(x) for x in s['v']] if s['kind'] == 'char' else list(s['v'])), 'array as built')
    compare(d, a, mk_array(s), 'same', ep, 'two equal arrays')
    ways = [('deepCopy', lambda x: x.deepCopy()), ('performCopyOrIncrRef', lambda x: x.performCopyOrIncrRef(True) if hasattr(x, 'performCopyOrIncrRef') else x.deepCopy()), ('assignment', lambda x: cpy(x))]
    copies(d, a, dump_array, ep, 'array', ways, pick=s['kind'] in ('double', 'int32', 'int64', 'float'))
    t, kind = edit_array(d, s, eps)
    b = mk_array(t)
    # the comparison without strings is documented as one of the values: the repartition of the values in tuples does not count
    compare(d, a, b, 'data' if kind == 'shape' else kind, ep, 'arrays differing by %s' % short(t, 300), nostr=kind != 'shape')
    # independence of a copy
    if s['v'] and s['kind'] in ('double', 'int32', 'int64'):
        c = a.deepCopy()
        i = d.below(len(s['v']))
        c.setIJ(i // s['nc'], i % s['nc'], 77)
        c.setName('other')
        eq(d, dump_array(a)[5], list(s['v']), 'values of the array after a change of its copy')
        eq(d, a.getName(), s['name'], 'name of the array after a change of its copy')


# ---- meshes

def edit_mesh(d, s, eps):
    s = copy.deepcopy(s)
    k = s['kind']
    e = d.weighted([(1, 'name'), (1, 'desc'), (1, 'unit'), (1, 'time'), (6, 'geo'), (2, 'info'), (1, 'small'), (3, 'topo')])
    if e in ('name', 'desc', 'unit'):
        s[e] += d.choice(['x', ' '])
        return s, 'str', e
    if e == 'time':
        t = list(s['time'])
        j = d.below(3)
        t[j] += 1
        s['time'] = tuple(t)
        return s, 'time', e
    if e == 'info':
        if k in ('u', '1s', '1d', 'cl'):
            if d.bool(.3):
                s['cname'] += 'z'
            else:
                j = d.below(len(s['info']))
                s['info'][j] += 'k'
        elif k == 'c':
            s['axes'][d.below(len(s['axes']))][1] += 'k'
        else:
            s['axu'] += 'k'
        return s, 'str', e
    dv = eps * .25 if e == 'small' else 2 * eps * d.choice([1, 1, 5])
    dv *= d.choice([-1, 1])
    if e in ('geo', 'small'):
        if k in ('u', '1s', '1d', 'cl'):
            if not s['xyz']:
                raise Discard()
            i, j = d.below(len(s['xyz'])), d.below(s['sd'])
            s['xyz'][i][j] += dv
        elif k == 'c':
            a = s['axes'][d.below(len(s['axes']))][0]
            i = d.below(len(a))
            a[i] += dv
        else:
            a = s[d.choice(['org', 'dx'])]
            i = d.below(len(a))
            a[i] += dv
        return s, 'same' if e == 'small' else 'data', e
    # topology
    if k in ('u', '1s', '1d'):
        if not s['cells']:
            raise Discard()
        i = d.below(len(s['cells']))
        t, c = s['cells'][i]
        w = d.choice(['id', 'id', 'swap', 'drop', 'dup', 'type'])
        if w == 'type':
            alt = {TRI3: POLYGON, QUAD4: POLYGON, POLYGON: {3: TRI3, 4: QUAD4}.get(len(c)), TRI6: QPOLYG, QUAD8: QPOLYG, SEG2: POLYL, SEG3: POLYL}.get(t)
            if k != 'u' or not alt:
                w = 'id'
            else:
                s['cells'][i] = (alt, c)
        if w == 'id':
            j = d.below(len(c))
            if c[j] < 0 or len(s['xyz']) < 2:
                raise Discard()
            c[j] = (c[j] + d.int(1, len(s['xyz']) - 1)) % len(s['xyz'])
        elif w == 'swap':
            j = d.below(len(s['cells']))
            if s['cells'][i] == s['cells'][j]:
                raise Discard()
            s['cells'][i], s['cells'][j] = s['cells'][j], s['cells'][i]
        elif w == 'drop':
            if len(s['cells']) < 2:
                raise Discard()
            del s['cells'][i]
        elif w == 'dup':
            s['cells'].append((t, list(c)))
        return s, 'data', w
    if k == 'c':
        a = s['axes'][d.below(len(s['axes']))][0]
        a.append(a[-1] + 1.)
    elif k == 'i':
        s['st'][d.below(len(s['st']))] += 1
    else:
        if len(set(s['st'])) < 2:
            raise Discard()
        st = s['st'][1:] + s['st'][:1]
        if st == s['st']:
            st = s['st'][::-1]
        if st == s['st']:
            raise Discard()
        s['st'] = st
    return s, 'data', e


def tiny(m):
    """through the arrays of the tiny serialization"""
    a, b, c = m.getTinySerializationInformation()
    d1, d2 = m.serialize()
    n = type(m).New()
    n.resizeForUnserialization(b, d1, d2, c)
    n.unserialization(a, b, d1, d2, c)
    return n


MESH_WAYS = [('deepCopy', lambda x: x.deepCopy()), ('clone(True)', lambda x: x.clone(True)), ('clone(False)', lambda x: x.clone(False))]


@check(n=6000, rule='at least two cells')
def meshes(d):
    """meshes of every kind: copies, pickles are equal, any single edit is seen"""
    s = rnd_mesh(d)
    eps = d.choice([1e-6, 1e-3])
    m = mk_mesh(s)
    d.nontrivial(m.getNumberOfCells() > 1)
    d.label(s['kind'])
    d.sample(short(s, 300))
    compare(d, m, mk_mesh(s), 'same', (eps,), 'two equal meshes')
    copies(d, m, dump_mesh, (1e-14,), s['kind'] + ' mesh', MESH_WAYS)
    t, kind, e = edit_mesh(d, s, eps)
    b = mk_mesh(t)
    d.label(e)
    if kind == 'time':
        compare(d, m, b, 'data', (eps,), 'meshes whose time differs', nostr=False)
    else:
        compare(d, m, b, kind, (eps,), 'meshes differing by %s: %s' % (e, short(t, 400)))
    o = mk_mesh(rnd_mesh(d))
    if type(o) is not type(m):
        d.check(not m.isEqual(o, eps), 'meshes of types %r and %r are equal' % (type(m), type(o)))
        d.check(not m.isEqualWithoutConsideringStr(o, eps), 'meshes of types %r and %r are equal without the strings' % (type(m), type(o)))
    elif (dump_mesh(o) == dump_mesh(m)) != bool(m.isEqual(o, 1e-14)):
        d.fail('isEqual is %r for %r and %r' % (m.isEqual(o, 1e-14), dump_mesh(m), dump_mesh(o)))


# ---- fields

FIELD_WAYS = [('deepCopy', lambda x: x.deepCopy()), ('clone(True)', lambda x: x.clone(True)), ('clone(False)', lambda x: x.clone(False)), ('cloneWithMesh(True)', lambda x: x.cloneWithMesh(True)), ('cloneWithMesh(False)', lambda x: x.cloneWithMesh(False))]


@check(n=6000, rule='at least two values')
def the_fields(d):
    """fields of every kind: copies, pickles are equal, any single edit is seen"""
    kind = d.weighted([(6, 'double'), (1, 'float'), (1, 'int32'), (1, 'int64')])
    s = field(d, kind=kind, td='one' if kind != 'double' else None, disc=None if kind == 'double' else d.choice(['cell', 'node']))
    eps = d.choice([1e-6, 1e-3])
    f = build_f(s)
    ep = (eps, eps if kind == 'double' else 0)
    if not s.arrays[0]:
        raise Discard()
    d.nontrivial(len(s.arrays[0]) * s.nc > 1)
    d.label(kind, s.disc, s.tm['td'])
    d.sample(short(s, 300))
    compare(d, f, build_f(s), 'same', ep, 'two equal fields')
    copies(d, f, dump_field, ep, kind + ' field', FIELD_WAYS)
    e = d.weighted([(1, 'name'), (1, 'desc'), (1, 'unit'), (2, 'time'), (5, 'v'), (1, 'small'), (2, 'info'), (2, 'nature'), (2, 'mesh'), (2, 'loc'), (1, 'tdisc'), (1, 'dtype')])
    ek, g = 'data', None
    if e in ('name', 'desc'):
        g, ek = build_f(s, **{e: getattr(s, e) + 'x'}), 'str'
    elif e == 'unit':
        g, ek = build_f(s, tm=dict(s.tm, unit=s.tm['unit'] + 'x')), 'str'
    elif e == 'time' and s.tm['td'] != 'no':
        w = d.choice(['t0', 't1']) if s.tm['td'] != 'one' else 't0'
        t = list(s.tm[w])
        j = d.below(3)
        t[j] += 1 if j else 2 * s.tm['tol']
        if not j and s.tm['td'] != 'one' and not s.tm['t1'][0] - s.tm['t0'][0] > 4 * s.tm['tol']:
            raise Discard()
        g = build_f(s, tm=dict(s.tm, **{w: tuple(t)}))
    elif e in ('v', 'small'):
        a = [list(map(list, x)) for x in s.arrays]
        k = d.below(len(a))
        i = d.below(len(a[k]))
        if e == 'small' and kind != 'double':
            e = 'v'
        a[k][i][d.below(s.nc)] += (eps * .25 if e == 'small' else 3 * eps if kind == 'double' else 1) * d.choice([1, -1])
        g = build_f(s, arrays=a)
        ek = 'same' if e == 'small' else 'data'
    elif e == 'info':
        inf = list(s.infos)
        inf[d.below(s.nc)] += 'x'
        g, ek = build_f(s, infos=inf), 'str'
    elif e == 'nature':
        n2 = d.choice([x for x in ([mc.NoNature, mc.IntensiveMaximum, mc.ExtensiveConservation, mc.IntensiveConservation, mc.ExtensiveMaximum] if s.disc == 'cell' else [mc.NoNature, mc.IntensiveMaximum] if s.disc == 'node' else [s.nature]) if x != s.nature] or [s.nature])
        if n2 != s.nature:
            g = build_f(s, nature=n2)
    elif e == 'mesh':
        w = d.choice(['xyz', 'name', 'conn'])
        p = copy.deepcopy(s.pm)
        if w == 'xyz':
            i = d.below(p.nn)
            x = list(p.xyz[i])
            x[d.below(p.sd)] += 3 * eps
            p.xyz[i] = tuple(x)
        elif w == 'name':
            p = PM(p.sd, p.md, p.xyz, p.cells, p.name + 'x')
            ek = 'str'
        else:
            i = d.below(p.nc)
            t, c = p.cells[i]
            if t == POLYHED or len(set(c)) < 2:
                raise Discard()
            p.cells[i] = (t, c[1:] + c[:1])
        g = build_f(s, pm=p)
    elif e == 'loc' and s.disc == 'gauss':
        locs = copy.deepcopy(s.locs)
        k = d.below(len(locs))
        t, rc, gc, w = locs[k]
        x = d.choice([1, 2, 3]) if d.bool(.8) else 0
        if x:
            v = list((t, rc, gc, w)[x])
            v[d.below(len(v))] += 3 * eps
            locs[k] = tuple(v if i == x else y for i, y in enumerate((t, rc, gc, w)))
            g = build_f(s, locs=locs)
        else:
            # cells with the same number of points but exchanged localizations
            a = [(i, j) for i in range(s.pm.nc) for j in range(i) if s.pm.cells[i][0] == s.pm.cells[j][0] and s.loc_of[i] != s.loc_of[j] and len(s.locs[s.loc_of[i]][3]) == len(s.locs[s.loc_of[j]][3])]
            if a:
                i, j = d.choice(a)
                lo = list(s.loc_of)
                lo[i], lo[j] = lo[j], lo[i]
                if lo.count(s.loc_of[i]) and [lo.index(k) for k in range(len(locs))] == sorted(lo.index(k) for k in range(len(locs))) or True:
                    g = build_f(s, loc_of=lo)
    elif e == 'tdisc' and s.tm['td'] in ('one', 'no') and kind == 'double':
        g = build_f(s, tm=dict(s.tm, td='no' if s.tm['td'] == 'one' else 'one'))
    elif e == 'dtype' and s.disc in ('cell', 'node') and s.pm.nc == s.pm.nn and s.nature == mc.NoNature:
        g = build_f(s, disc='node' if s.disc == 'cell' else 'cell')
    if g is None:
        raise Discard()
    d.label(e)
    compare(d, f, g, ek, ep, 'fields differing by %s' % e, nostr=e != 'unit')     # whether a time unit is a mere string is left open


@check(n=2500, rule='at least two cells')
def templates(d):
    """field templates: made from and turned into fields, compared with one edit"""
    s = field(d, td='one')
    f = build_f(s)
    d.nontrivial(s.pm.nc > 1)
    d.label(s.disc)
    d.sample(short(s, 200))
    t = mc.MEDCouplingFieldTemplate(f)
    for p in range(0, pickle.HIGHEST_PROTOCOL + 1):
        c = pickle.loads(pickle.dumps(t, p))
        eq(d, tmpl_dump(c), tmpl_dump(t), 'pickle %d of a template' % p)
        d.check(c.isEqual(t, 1e-12), 'pickle %d of a template is not equal' % p)
    u = mc.MEDCouplingFieldTemplate(build_f(s))
    eq(d, t.getTypeOfField(), f.getTypeOfField(), 'type of the template')
    compare(d, t, u, 'same', (1e-9,), 'templates of equal fields')
    g = mc.MEDCouplingFieldDouble(t, mc.ONE_TIME)
    eq(d, g.getTypeOfField(), f.getTypeOfField(), 'type of the field from the template')
    eq(d, g.getNature(), f.getNature(), 'nature of the field from the template')
    eq(d, dump_mesh(g.getMesh()), dump_mesh(f.getMesh()), 'mesh of the field from the template')
    if s.disc == 'gauss':
        eq(d, dump_locs(g), dump_locs(f), 'localizations of the field from the template')
        eq(d, [g.getGaussLocalizationIdOfOneCell(i) for i in range(s.pm.nc)], [f.getGaussLocalizationIdOfOneCell(i) for i in range(s.pm.nc)], 'localization of each cell')
    e = d.choice(['name', 'nature', 'mesh', 'loc'])
    ek, h = 'data', None
    if e == 'name':
        h, ek = build_f(s, name=s.name + 'x'), 'str'
    elif e == 'nature' and s.disc == 'cell':
        h = build_f(s, nature=mc.IntensiveConservation)
    elif e == 'mesh':
        p = copy.deepcopy(s.pm)
        i = d.below(p.nn)
        p.xyz[i] = tuple(v + 1. for v in p.xyz[i])
        h = build_f(s, pm=p)
    elif e == 'loc' and s.disc == 'gauss':
        locs = copy.deepcopy(s.locs)
        k = d.below(len(locs))
        locs[k][3][d.below(len(locs[k][3]))] += .5
        h = build_f(s, locs=locs)
    if h is not None:
        compare(d, t, mc.MEDCouplingFieldTemplate(h), ek, (1e-9,), 'templates differing by %s' % e)


@check(n=2000, rule='at least two fields')
def multi(d):
    """MEDCouplingMultiFields and FieldOverTime: contents, copies, definition of times and comparison after one edit"""
    n = d.int(1, 4)
    base = mesh_for(d, 'cell', 2)
    fs, t = [], 0
    over = d.bool()
    for k in range(n):
        s = field(d, disc='cell' if over else d.choice(['cell', 'node']), td=d.choice(['const', 'one', 'linear']) if over else d.choice(['one', 'no', 'const', 'linear']), pm=base, nc=1 if over else None)
        s.tm = dict(s.tm, t0=(float(4 * k), k, 0), t1=(float(4 * k + d.int(1, 3)), k, 1), unit='s', tol=1e-12)
        if over:
            s.name, s.desc, s.nature = 'f', '', mc.NoNature
        s.kw = {}
        fs.append(s)
    m = to_mc(base)
    objs = [s.build(m) for s in fs]
    d.nontrivial(n > 1)
    d.label('over time' if over else 'multi', n)
    d.sample(short(fs, 300))
    C = mc.MEDCouplingFieldOverTime if over else mc.MEDCouplingMultiFields
    if over and fs[0].tm['td'] in ('no',):
        raise Discard()

    def dump(mf):
        return [dump_field(x) for x in mf.getFields()]
    mf = C.New(objs) if hasattr(C, 'New') else C(objs)
    eq(d, dump(mf), [dump_field(x) for x in objs], 'fields of the multi field')
    eq(d, mf.getNumberOfFields(), n, 'number of fields')
    c = mf.deepCopy()
    eq(d, dump(c), dump(mf), 'deep copy')
    d.check(mf.isEqual(c, 1e-12, 1e-12) and c.isEqual(mf, 1e-12, 1e-12), 'the deep copy is not equal')
    d.check(mf.isEqualWithoutConsideringStr(c, 1e-12, 1e-12), 'the deep copy is not equal without strings')
    k = d.below(n)
    a = [list(map(list, x)) for x in fs[k].arrays]
    j = d.below(len(a))
    i = d.below(len(a[j]))
    a[j][i][d.below(fs[k].nc)] += 1.
    objs2 = [s.build(m, a if q == k else None) for q, s in enumerate(fs)]
    m2 = C.New(objs2) if hasattr(C, 'New') else C(objs2)
    d.check(not mf.isEqual(m2, 1e-12, 1e-12) and not m2.isEqual(mf, 1e-12, 1e-12), 'equal though a value of field %d differs' % k)
    d.check(not mf.isEqualWithoutConsideringStr(m2, 1e-12, 1e-12), 'equal without strings though a value of field %d differs' % k)
    if over:
        dt = mf.getDefinitionTimeZone()
        d2 = m2.getDefinitionTimeZone()
        d.check(dt.isEqual(d2), 'definition times differ')


@check(n=3000, rule='at least two packs')
def skyline(d):
    """skyline arrays: content, copies, equality after one edit"""
    pk = [d.ints(d.size(4), 0, 20) for _ in range(d.size(6))]
    idx = [0]
    for p in pk:
        idx.append(idx[-1] + len(p))
    v = [x for p in pk for x in p]

    def mk(pk):
        ix = [0]
        for p in pk:
            ix.append(ix[-1] + len(p))
        return mc.MEDCouplingSkyLineArray(I(ix), I([x for p in pk for x in p]))
    a = mk(pk)
    d.nontrivial(len(pk) > 1)
    d.sample(repr(pk))
    c = a.deepCopy()
    eq(d, packs(c.getValuesArray(), c.getIndexArray()), pk, 'deep copy')
    eq(d, packs(a.getValuesArray(), a.getIndexArray()), pk, 'array')
    if v:
        c.getValuesArray().setIJ(0, 0, 99)
        eq(d, packs(a.getValuesArray(), a.getIndexArray()), pk, 'array after a change in its copy')
    b = mc.MEDCouplingSkyLineArray(a)
    eq(d, packs(b.getValuesArray(), b.getIndexArray()), pk, 'shallow copy')
    # three levels
    sup = [0]
    while sup[-1] < len(pk):
        sup.append(min(len(pk), sup[-1] + d.int(1, 3)))
    if pk:
        e = mc.MEDCouplingSkyLineArray.BuildFromPolyhedronConn(I([POLYHED] + [x for i, p in enumerate(pk) for x in (p + [-1] if i + 1 < len(pk) else p)]), I([0, len(v) + len(pk)])) if all(pk) else None
        if e is not None:
            eq(d, packs(e.getValuesArray(), e.getIndexArray()), pk, 'packs of a polyhedron')
            f = e.deepCopy()
            eq(d, (L(f.getSuperIndexArray()), L(f.getIndexArray()), L(f.getValuesArray())), (L(e.getSuperIndexArray()), L(e.getIndexArray()), L(e.getValuesArray())), 'copy of three levels')


@check(n=3000, rule='always')
def localizations(d):
    """Gauss localizations: stored values, pickling-free copies and equality after one edit"""
    t = d.choice([SEG2, SEG3, TRI3, TRI6, QUAD4, QUAD8, TETRA4, TETRA10, PYRA5, PENTA6, HEXA8, HEXA20])
    rc = mc.MEDCouplingGaussLocalization.GetDefaultReferenceCoordinatesOf(t).getValues()
    nn = fields.ref_nb(t)
    dim = len(rc) // nn
    n = d.int(1, 5)
    gc = [d.sint(8) / 16. for _ in range(n * dim)]
    w = [d.int(1, 9) / 8. for _ in range(n)]
    d.nontrivial(True)
    d.sample('%r %r %r' % (t, gc, w))

    def mk(t, rc, gc, w):
        return mc.MEDCouplingGaussLocalization(t, rc, gc, w)
    a = mk(t, rc, gc, w)
    eq(d, (a.getType(), list(a.getRefCoords()), list(a.getGaussCoords()), list(a.getWeights()), a.getNumberOfGaussPt(), a.getDimension(), a.getNumberOfPtsInRefCell()), (t, list(rc), gc, w, n, dim, nn), 'localization')
    eps = d.choice([1e-9, 1e-3])
    d.check(a.isEqual(mk(t, rc, gc, w), eps), 'equal localizations differ')
    k = d.below(3)
    v = [list(rc), list(gc), list(w)]
    i = d.below(len(v[k]))
    small = d.bool(.3)
    v[k][i] += (.25 if small else 2) * eps
    b = mk(t, *v)
    d.check(bool(a.isEqual(b, eps)) == small and bool(b.isEqual(a, eps)) == small, 'isEqual is %r after an edit of %s' % (a.isEqual(b, eps), ['reference coordinates', 'points', 'weights'][k]))
    for i in range(n):
        for j in range(dim):
            eq(d, a.getGaussCoord(i, j), gc[i * dim + j], 'coordinate %d of point %d' % (j, i))
        eq(d, a.getWeight(i), w[i], 'weight %d' % i)


@check(n=1500, rule='at least one patch')
def amr(d):
    """adaptive meshes: the deep copy has the same tree and is independent"""
    dim = d.int(1, 3)
    st = [d.int(2, 5) for _ in range(dim)]
    m = mc.MEDCouplingCartesianAMRMesh('amr', dim, [x + 1 for x in st], [d.sint(8) / 4. for _ in st], [d.int(1, 8) / 4. for _ in st])
    rnd_amr(d, m, st, 1)
    d.nontrivial(m.getNumberOfPatches() > 0)
    want = dump_amr(m)
    d.sample(short(want, 300))
    c = m.deepCopy(None)
    eq(d, dump_amr(c), want, 'deep copy')
    if m.getNumberOfPatches():
        c.removePatch(d.below(m.getNumberOfPatches()))
    c.addPatch([(0, 1)] * dim, list(m.getFactors()) if m.getNumberOfPatches() else [2] * dim) if not c.getNumberOfPatches() else None
    eq(d, dump_amr(m), want, 'mesh after a change in its copy')


@check(n=1500, rule='at least two cells')
def extruded(d):
    """mapped extruded meshes: copies, pickles and one edit"""
    p2 = gen.mesh2d(d, 2)
    h = d.int(1, 3)
    zs = gen.incr(d, h + 1)
    m2 = to_mc(PM(3, 2, [p + (0.,) for p in p2.xyz], p2.cells, 'm2'))
    m1 = to_mc(PM(3, 1, [(0., 0., z) for z in zs], [(SEG2, [i, i + 1]) for i in range(h)], 'm1'))
    m3 = m2.buildExtrudedMesh(m1, 0)
    if d.bool():
        m3 = m3[I(d.perm(m3.getNumberOfCells()))]
    m2.setCoords(m3.getCoords()) if False else None
    e = mc.MEDCouplingMappedExtrudedMesh(m3, m3.buildUnstructured() if False else base2d(m3, m2), 0)
    e.setName(d.choice(['', 'ext']))
    e.setTime(d.sint(8) / 4., 1, 2)
    e.setTimeUnit(d.choice(['', 's']))
    e.setDescription(d.choice(['', 'de']))
    d.nontrivial(e.getNumberOfCells() > 1)
    d.sample(repr(p2))
    copies(d, e, dump_mesh, (1e-12,), 'extruded mesh', MESH_WAYS)
    c = e.deepCopy()
    k = d.choice(['name', 'ids', '2d', '1d'])
    if k == 'name':
        c.setName('other')
        compare(d, e, c, 'str', (1e-9,), 'extruded meshes differing by the name')
        return
    if k == 'ids' and e.getNumberOfCells() > 1:
        a = c.getMesh3DIds()
        v = L(a)
        i = d.below(len(v) - 1)
        a.setIJ(i, 0, v[i + 1])
        a.setIJ(i + 1, 0, v[i])
    elif k == '2d':
        c.getMesh2D().getCoords().setIJ(d.below(c.getMesh2D().getNumberOfNodes()), 0, 55.)
    else:
        c.getMesh1D().getCoords().setIJ(0, 2, 55.)
    compare(d, e, c, 'data', (1e-9,), 'extruded meshes differing by %s' % k)


def base2d(m3, m2):
    """the bottom surface of m3, on its coordinates"""
    n2 = m2.getNumberOfNodes()
    b = m2.deepCopy()
    b.setCoords(m3.getCoords())
    return b
