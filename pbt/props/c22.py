"""C22 fields: restructuring keeps every value attached to its geometric entity."""
from fields import *

MCF = mc.MEDCouplingFieldDouble


def key(p):
    return tuple(0. if x == 0 else round(x, 9) for x in p)


def arrs(f):
    return f.getArrays() if hasattr(f, 'getArrays') else [f.getArray()]


def data(f):
    """per array: list of tuples"""
    return [[tuple(r) for r in a.toNumPyArray().reshape(a.getNumberOfTuples(), a.getNumberOfComponents()).tolist()] for a in arrs(f) if a is not None]


def loc_of(f, i):
    l = f.getGaussLocalization(f.getGaussLocalizationIdOfOneCell(i))
    return (l.getType(), tuple(l.getRefCoords()), tuple(l.getGaussCoords()), tuple(l.getWeights()))


def view(f, keyf=key):
    """list over cells of (type, corner coordinates in order, values of every array on the cell or on its nodes, localization), and nodes"""
    m = f.getMesh().buildUnstructured()
    pm = from_mc(m)
    arr = data(f)
    disc = {v: k for k, v in DISC.items()}[f.getTypeOfField()]
    for a in arr:
        if len(a) != f.getNumberOfTuplesExpected():
            raise AssertionError('%d tuples in an array, %d expected' % (len(a), f.getNumberOfTuplesExpected()))
    cells, off = [], 0
    for i, (t, c) in enumerate(pm.cells):
        g = tuple(keyf(pm.xyz[v]) if v >= 0 else -1 for v in c)
        loc = None
        if disc == 'cell':
            val = tuple(tuple(a[i:i + 1]) for a in arr)
        elif disc in ('gne', 'gauss'):
            n = len(c)
            if disc == 'gauss':
                loc = loc_of(f, i)
                n = len(loc[3])
            val = tuple(tuple(a[off:off + n]) for a in arr)
            off += n
        else:
            val = tuple(tuple(a[v] if v >= 0 else -1 for v in c) for a in arr)
        cells.append((t, g, val, loc))
    nodes = [(keyf(p), tuple(a[i] for a in arr)) for i, p in enumerate(pm.xyz)] if disc in ('node', 'kr', 'fe') else None
    return cells, nodes


def meta(f):
    return (f.getName(), f.getDescription(), f.getTypeOfField(), f.getNature(), tuple(sorted(get_time(f).items())), tuple(tuple(a.getInfoOnComponents()) for a in arrs(f)))


def same(d, got, want, what):
    if len(got) != len(want):
        d.fail('%s: %d entities, expected %d: %s / %s' % (what, len(got), len(want), short(got), short(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            d.fail('%s: entity %d is %s, expected %s' % (what, i, short(a), short(b)))


def same_bag(d, got, want, what):
    same(d, sorted(got, key=repr), sorted(want, key=repr), what)


KINDS = [(4, 'double'), (1, 'float'), (1, 'int32'), (1, 'int64')]


def anyfield(d, disc=None, kind=None, **kw):
    kind = kind or d.weighted(KINDS)
    if kind != 'double':
        kw.setdefault('td', 'one')      # the only one supported for these classes
    F = field(d, disc, kind=kind, **kw)
    if kind != 'double':
        F.tm['tol'] = 1e-12
    d.label(F.disc, kind, F.tm['td'])
    return F


def perms(d, n):
    return d.perm(n) if d.bool(.8) else [(i + 1) % n for i in range(n)]


@check(n=5000, rule='at least two cells and the permutation is not the identity')
def renumber_cells(d):
    """renumberCells / renumberCellsWithoutMesh: cell old2new[i] of the result is cell i with its values and its Gauss points"""
    F = anyfield(d, kind='double')
    nc = F.pm.nc
    p = perms(d, nc)
    chk = d.bool()
    arg = list(p)
    d.nontrivial(nc > 1 and p != list(range(nc)))
    d.sample('%r old2new=%r' % (F, p))
    m = to_mc(F.pm)
    f = F.build(m)
    v0, mt = view(f), meta(f)
    inv = [p.index(i) for i in range(nc)]
    if chk and d.bool(.5):      # with check, any distinct ids are accepted and ranked
        arg = [3 * x + 2 for x in p]
    if d.bool(.6):
        f.renumberCells(I(arg) if d.bool() else arg, chk)
        if f.getMesh().getHiddenCppPointer() == m.getHiddenCppPointer() or not m.isEqual(to_mc(F.pm), 0.):
            d.fail('renumberCells changed the mesh object shared with others')
    else:
        arg = list(p)
        f.renumberCellsWithoutMesh(I(arg) if d.bool() else arg, chk)
        m2 = m.deepCopy()
        m2.renumberCells(p, True)
        if F.disc in ('node', 'kr', 'fe'):
            same(d, view(f)[1], v0[1], 'renumberCellsWithoutMesh on a nodal field')
        f.setMesh(m2)
    f.checkConsistencyLight()
    v = view(f)
    same(d, v[0], [v0[0][inv[i]] for i in range(nc)], 'renumberCells %r' % (arg,))
    if v0[1]:
        same(d, v[1], v0[1], 'nodes after renumberCells')
    eq(d, meta(f), mt, 'metadata after renumberCells')


@check(n=4000, rule='at least three nodes and the permutation is not the identity')
def renumber_nodes(d):
    """renumberNodes: permutation, and merge of nodes with equal values; refused when the values differ by more than eps"""
    F = anyfield(d, kind='double')
    nn = F.pm.nn
    m = to_mc(F.pm)
    f = F.build(m)
    mt, v0 = meta(f), view(f)
    nodal = F.disc in ('node', 'kr')
    if d.bool(.6):
        p = perms(d, nn)
        d.nontrivial(nn > 2 and p != list(range(nn)))
        d.sample('%r old2new=%r' % (F, p))
        if d.bool():
            f.renumberNodes(p, 1e-12)
        else:
            f.renumberNodesWithoutMesh(p, nn, 1e-12)
            m2 = m.deepCopy()
            m2.renumberNodes(p, nn)
            f.setMesh(m2)
        if not m.isEqual(to_mc(F.pm), 0.):
            d.fail('renumberNodes changed the shared mesh')
        same(d, view(f)[0], v0[0], 'cells after renumberNodes')
        if nodal:
            inv = [p.index(i) for i in range(nn)]
            same(d, view(f)[1], [v0[1][inv[i]] for i in range(nn)], 'nodes after renumberNodes')
        eq(d, meta(f), mt, 'metadata after renumberNodes')
        return
    # two nodes sent to the same number; values equal up to delta
    a, b = d.sample_ids(nn, 2) if nn > 1 else (None, None)
    d.assume(a is not None and nodal)
    delta, eps = d.choice([(0., 1e-12), (0., 0.), (1e-3, 1e-2), (1e-2, 1e-3), (-1e-3, 1e-2), (-1e-2, 1e-3)])
    for r in F.arrays:
        r[b] = r[a]
    k = d.below(len(F.arrays))
    j = d.below(F.nc)
    F.arrays[k][b] = tuple(x + (delta if q == j else 0.) for q, x in enumerate(F.arrays[k][b]))
    rest = d.perm(nn - 1)
    p = [None] * nn
    it = iter(rest)
    for i in range(nn):
        if i != b:
            p[i] = next(it)
    p[b] = p[a]
    f = F.build(m)
    d.nontrivial(nn > 2)
    d.sample('merge of nodes %d, %d by %r: delta=%g eps=%g %r' % (a, b, p, delta, eps, F))
    if abs(delta) > eps:
        if not raises(lambda: f.renumberNodes(p, eps)):
            d.fail('renumberNodes merged nodes %d and %d whose values differ by %g > eps=%g' % (a, b, delta, eps))
        return
    f.renumberNodes(p, eps)
    eq(d, f.getMesh().getNumberOfNodes(), nn - 1, 'number of nodes')
    got = data(f)
    for k in range(len(F.arrays)):
        for i in range(nn):
            if i not in (a, b) and got[k][p[i]] != F.arrays[k][i]:
                d.fail('node %d -> %d: value %r, expected %r' % (i, p[i], got[k][p[i]], F.arrays[k][i]))
        if got[k][p[a]] not in (F.arrays[k][a], F.arrays[k][b]):
            d.fail('merged node: value %r, expected %r or %r' % (got[k][p[a]], F.arrays[k][a], F.arrays[k][b]))


@check(n=6000, rule='the part has at least two cells and is a strict part or is reordered')
def sub_part(d):
    """buildSubPart / buildSubPartRange / f[...]: the cells of the part in order, with their values; component selection"""
    F = anyfield(d)
    nc = F.pm.nc
    m = to_mc(F.pm)
    f = F.build(m)
    v0, mt = view(f), meta(f)
    comp = None
    how = d.choice(['list', 'array', 'range', 'slice', 'getitem', 'compo', 'one'])
    if how in ('range', 'slice'):
        a = d.below(nc + 1)
        s = d.int(1, 3)
        b = d.int(a, nc)
        ids = list(range(a, b, s))
        d.assume(ids)
        r = f.buildSubPartRange(a, b, s) if how == 'range' else f[a:b:s] if d.bool() else f.buildSubPart(slice(a, b, s))
    elif how == 'one':
        i = d.below(nc)
        ids = [i]
        r = f[i] if d.bool() else f.buildSubPart([i])
    else:
        ids = d.sample_ids(nc, d.int(1, nc))
        if d.bool(.3):
            ids = sorted(ids)
        r = f.buildSubPart(ids) if how == 'list' else f.buildSubPart(I(ids)) if how == 'array' else f[ids if d.bool() else I(ids)] if how == 'getitem' else None
        if how == 'compo':
            comp = d.sample_ids(F.nc, d.int(1, F.nc))
            w = d.below(3)
            if w == 0:
                comp = comp[:1]
                r = f[ids, comp[0]]
            elif w == 1:
                r = f[ids, comp]
            else:
                comp = list(range(min(comp), F.nc, d.int(1, 2) if d.bool() else 1))
                st = comp[1] - comp[0] if len(comp) > 1 else 1
                r = f[ids, comp[0]::st]
                comp = list(range(F.nc))[comp[0]::st]
    d.nontrivial(len(ids) > 1 and ids != list(range(nc)))
    d.label(how)
    d.sample('%r %s %r comp=%r' % (F, how, ids, comp))
    r.checkConsistencyLight()
    want = [v0[0][i] for i in ids]
    if comp is not None:
        sel = lambda t: tuple(t[c] for c in comp) if t != -1 else -1
        want = [(t, g, tuple(tuple(sel(x) for x in a) for a in val), l) for t, g, val, l in want]
    v = view(r)
    same(d, v[0], want, 'buildSubPart %r' % (ids,))
    if v[1] is not None:
        eq(d, sorted(v[1], key=repr) if how != 'compo' else None, sorted(restrict(F, v0, ids), key=repr) if how != 'compo' else None, 'nodes of the part')
    got = meta(r)
    if comp is not None:
        mt = mt[:-1] + (tuple(tuple(x[c] for c in comp) for x in mt[-1]),)
    eq(d, got, mt, 'metadata of the part')
    eq(d, view(f)[0], v0[0], 'the field itself after buildSubPart')


def restrict(F, v0, ids):
    """nodes used by the part; a part made of all the cells in order keeps the mesh as it is"""
    used = {v for i in ids for v in F.pm.cells[i][1] if v >= 0}
    return [v0[1][n] for n in range(F.pm.nn) if n in used]


@check(n=3000, rule='at least two cells in the selection')
def tuple_ids(d):
    """computeTupleIdsToSelectFromCellIds: the tuples of the selected cells in the order of the cells (sorted for nodes)"""
    F = anyfield(d, kind='double')
    ids = d.sample_ids(F.pm.nc, d.int(1, F.pm.nc))
    f = F.build(to_mc(F.pm))
    d.nontrivial(len(ids) > 1)
    d.sample('%r %r' % (F, ids))
    got = L(f.computeTupleIdsToSelectFromCellIds(ids))
    if F.np is None:
        eq(d, sorted(got), sorted({v for i in ids for v in F.pm.cells[i][1] if v >= 0}), 'nodes of cells %r' % ids)
    else:
        off = [0]
        for n in F.np:
            off.append(off[-1] + n)
        eq(d, got, [k for i in ids for k in range(off[i], off[i + 1])], 'tuples of cells %r' % ids)


def second(d, F, pm):
    """another field of same nature on another mesh"""
    locs = loc = None
    if F.disc == 'gauss':
        locs, loc = gauss_locs(d, pm)
    n = ntup(pm, F.disc, locs, loc)
    return Fld(pm, F.disc, F.tm, [rows_for(d, n, F.nc, F.kind) for _ in F.arrays], F.nc, F.infos, F.kind, locs, loc, 'g', 'other', F.nature)


@check(n=3000, rule='both fields have at least two cells')
def merge_fields(d):
    """MergeFields: cells (and nodes) of the operands in order with their values"""
    F = anyfield(d, kind='double')
    for _ in range(20):
        pm = mesh_for(d, F.disc, surf=F.pm.sd > F.pm.md, dims=(F.pm.md,))
        if (pm.sd, pm.md) == (F.pm.sd, F.pm.md):
            break
    else:
        raise Discard()
    G = [F, second(d, F, pm)]
    if d.bool(.3):
        G.append(second(d, F, F.pm))
    d.nontrivial(all(x.pm.nc > 1 for x in G))
    d.sample(' || '.join(map(repr, G))[:1500])
    fs = [x.build(to_mc(x.pm)) for x in G]
    vs = [view(f) for f in fs]
    r = MCF.MergeFields(fs) if d.bool() or len(fs) > 2 else MCF.MergeFields(fs[0], fs[1])
    r.checkConsistencyLight()
    v = view(r)
    same(d, v[0], [c for x in vs for c in x[0]], 'MergeFields')
    if v[1] is not None:
        same(d, v[1], [c for x in vs for c in x[1]], 'nodes of MergeFields')
    eq(d, meta(r)[:5], meta(fs[0])[:5], 'metadata of MergeFields')
    eq(d, [view(f)[0] for f in fs], [x[0] for x in vs], 'operands after MergeFields')


@check(n=3000, rule='at least two cells and cells or nodes are reordered')
def change_mesh(d):
    """changeUnderlyingMesh on an equivalent mesh: values follow the cells and nodes; substractInPlaceDM gives 0"""
    F = anyfield(d, d.weighted([(3, 'cell'), (3, 'node'), (2, 'gauss'), (2, 'gne')]), kind='double')
    pm = F.pm
    m = to_mc(pm)
    f = F.build(m)
    v0, mt = view(f), meta(f)
    lev = d.choice([0, 1, 2, 10, 11, 12] if pm.md != 3 else [0, 2, 10, 12])
    pc, pn = list(range(pm.nc)), list(range(pm.nn))
    m2 = m.deepCopy()
    if lev >= 10:
        d.assume(len({key(p) for p in pm.xyz}) == pm.nn)
        pc, pn = perms(d, pm.nc), perms(d, pm.nn)
        m2.renumberNodes(pn, pm.nn)
        m2.renumberCells(pc, True)
        sig = [tuple(sorted(set(c))) for t, c in pm.cells]
        d.assume(len(set(sig)) == pm.nc)
    d.nontrivial(pm.nc > 1 and (lev < 10 or pc != sorted(pc) or pn != sorted(pn)))
    d.label('level %d' % lev)
    d.sample('level %d pc=%r pn=%r %r' % (lev, pc, pn, F))
    mode = d.bool(.7)
    if not mode:    # field on m2 with the same values, obtained through the model
        g = f.deepCopy()
        g.renumberNodes(pn, 1e-12)
        g.renumberCells(pc, True)
        g.setMesh(m2)
        f.substractInPlaceDM(g, lev, 1e-9, 1e-12)
        if f.getMesh().getHiddenCppPointer() != m2.getHiddenCppPointer():
            d.fail('substractInPlaceDM does not leave the field on the mesh of the operand')
        for a in f.getArrays():
            if abs(a.toNumPyArray()).max() != 0.:
                d.fail('substractInPlaceDM of the same field on a reordered mesh (level %d) gives %s' % (lev, short(a.toNumPyArray().tolist())))
        return
    f.changeUnderlyingMesh(m2, lev, 1e-9, 1e-12)
    if f.getMesh().getHiddenCppPointer() != m2.getHiddenCppPointer():
        d.fail('changeUnderlyingMesh does not set the mesh')
    f.checkConsistencyLight()
    v = view(f)
    inv = [pc.index(i) for i in range(pm.nc)]
    same(d, v[0], [v0[0][i] for i in inv], 'cells after changeUnderlyingMesh (level %d)' % lev)
    if v[1] is not None:
        same_bag(d, v[1], v0[1], 'nodes after changeUnderlyingMesh (level %d)' % lev)
    eq(d, meta(f), mt, 'metadata after changeUnderlyingMesh')


def explode(pm, d=None, shift=0.):
    """mesh where each cell has its own nodes: (pm, old node of each new node)"""
    xyz, cells, old = [], [], []
    for t, c in pm.cells:
        loc = {}
        k = []
        for v in c:
            if v < 0:
                k.append(v)
                continue
            if v not in loc:
                loc[v] = len(xyz)
                xyz.append(tuple(x + (d.sint(3) * shift if d else 0.) for x in pm.xyz[v]))
                old.append(v)
            k.append(loc[v])
        cells.append((t, k))
    return PM(pm.sd, pm.md, xyz, cells), old


@check(n=3000, rule='some nodes are merged')
def merge_nodes(d):
    """mergeNodes / mergeNodesCenter / zipCoords keep values; incompatible values are refused"""
    base = anyfield(d, d.weighted([(2, 'cell'), (5, 'node'), (1, 'gauss'), (1, 'gne')]), kind='double')
    pm0 = base.pm
    d.assume(len({key(p) for p in pm0.xyz}) == pm0.nn)
    gap = min([dist(p, q) for i, p in enumerate(pm0.xyz) for q in pm0.xyz[:i]] or [1.])
    d.assume(gap > 1e-2)
    shift = d.choice([0., 1e-7])
    pm, old = explode(pm0, d, shift)
    locs, loc = base.locs, base.loc_of
    tot = ntup(pm, base.disc, locs, loc)
    arrays = [[a[v] for v in old] if base.disc == 'node' else a for a in base.arrays]
    F = Fld(pm, base.disc, base.tm, arrays, base.nc, base.infos, 'double', locs, loc, 'f', 'z', base.nature)
    bad = None
    if base.disc == 'node' and d.bool(.3):
        dup = [i for i, v in enumerate(old) if old.count(v) > 1]
        if dup:
            bad = d.choice(dup)
            k = d.below(len(arrays))
            j = d.below(base.nc)
            arrays[k] = list(arrays[k])
            arrays[k][bad] = tuple(x + (.25 if q == j else 0.) for q, x in enumerate(arrays[k][bad]))
    m = to_mc(pm)
    f = F.build(m)
    kf = lambda p: tuple(round(x, 4) + 0. for x in p)
    v0, mt = view(f, kf), meta(f)
    which = d.choice(['mergeNodes', 'mergeNodesCenter'])
    d.nontrivial(len(set(old)) < len(old))
    d.label(which, 'refused' if bad is not None else 'ok')
    d.sample('%s bad=%r %r' % (which, bad, F))
    call = lambda: getattr(f, which)(1e-5, d_eps)
    d_eps = d.choice([1e-10, .1])
    if bad is not None:
        if not raises(call):
            d.fail('%s merged nodes whose values differ by .25 (eps %g)' % (which, d_eps))
        return
    r = call()
    eq(d, r, len(set(old)) < len(old), which + ' return value')
    eq(d, f.getMesh().getNumberOfNodes(), len(set(old)), which + ' number of nodes')
    if not m.isEqual(to_mc(pm), 0.):
        d.fail(which + ' changed the shared mesh')
    v = view(f, kf)
    # rounding of coordinates at 4 digits can fall on both sides: compare with tolerance
    eq(d, len(v[0]), len(v0[0]), 'number of cells')
    for i, (x, y) in enumerate(zip(v[0], v0[0])):
        if x[0] != y[0] or x[2:] != y[2:] or any((p == -1) != (q == -1) or (p != -1 and dist(p, q) > 3e-4) for p, q in zip(x[1], y[1])):
            d.fail('%s: cell %d is %s, expected %s' % (which, i, short(x), short(y)))
    eq(d, meta(f), mt, 'metadata after ' + which)


@check(n=3000, rule='the mesh has nodes used by no cell')
def zip_coords(d):
    """zipCoords drops the unused nodes and their values"""
    F = anyfield(d, d.weighted([(2, 'cell'), (5, 'node'), (1, 'gauss'), (1, 'gne')]), kind='double', pm=None)
    pm = F.pm.copy()
    extra = d.below(4)
    if extra:      # insert unused nodes anywhere
        pos = d.sample_ids(pm.nn + extra, extra)
        new = [None] * (pm.nn + extra)
        it = iter(range(pm.nn))
        src = [None if i in pos else next(it) for i in range(pm.nn + extra)]
        o2n = {o: n for n, o in enumerate(src) if o is not None}
        pm = PM(pm.sd, pm.md, [tuple(d.sint(20) / 2. for _ in range(pm.sd)) if o is None else pm.xyz[o] for o in src], [(t, [o2n[v] if v >= 0 else v for v in c]) for t, c in pm.cells])
        if F.disc == 'node':
            F.arrays = [[tuple(99. for _ in range(F.nc)) if o is None else a[o] for o in src] for a in F.arrays]
        F.pm = pm
    used = set(pm.used())
    d.nontrivial(len(used) < pm.nn)
    d.sample(repr(F))
    m = to_mc(pm)
    f = F.build(m)
    v0, mt = view(f), meta(f)
    r = f.zipCoords()
    eq(d, r, len(used) < pm.nn, 'zipCoords return value')
    v = view(f)
    same(d, v[0], v0[0], 'cells after zipCoords')
    if v[1] is not None:
        same(d, v[1], [x for i, x in enumerate(v0[1]) if i in used], 'nodes after zipCoords')
    eq(d, f.getMesh().getNumberOfNodes(), len(used), 'nodes after zipCoords')
    eq(d, meta(f), mt, 'metadata after zipCoords')
    if not m.isEqual(to_mc(pm), 0.):
        d.fail('zipCoords changed the shared mesh')


@check(n=3000, rule='some cells are duplicated')
def zip_connectivity(d):
    """zipConnectivity keeps one cell of each group of identical cells; refused when the values differ"""
    F = anyfield(d, d.weighted([(5, 'cell'), (2, 'node')]), kind='double')
    pm = F.pm.copy()
    comp = d.choice([0, 2])
    sig = [(t, tuple(sorted(set(c)))) for t, c in pm.cells]
    d.assume(len({s[1] for s in sig}) == pm.nc)
    nd = d.below(4)
    src = list(range(pm.nc)) + [d.below(pm.nc) for _ in range(nd)]
    o = d.perm(len(src))
    src = [src[i] for i in o]
    cells = [(pm.cells[s][0], list(pm.cells[s][1])) for s in src]
    pm2 = PM(pm.sd, pm.md, pm.xyz, cells)
    if F.disc == 'cell':
        F.arrays = [[a[s] for s in src] for a in F.arrays]
    F.pm = pm2
    bad = False
    if F.disc == 'cell' and nd and d.bool(.3):
        dup = [i for i, s in enumerate(src) if src.count(s) > 1]
        i = d.choice(dup)
        k, j = d.below(len(F.arrays)), d.below(F.nc)
        F.arrays[k][i] = tuple(x + (.25 if q == j else 0.) for q, x in enumerate(F.arrays[k][i]))
        bad = True
    m = to_mc(pm2)
    f = F.build(m)
    v0, mt = view(f), meta(f)
    d.nontrivial(nd > 0)
    d.sample('policy %d bad=%r %r' % (comp, bad, F))
    eps = d.choice([1e-10, .1])
    if bad:
        if not raises(lambda: f.zipConnectivity(comp, eps)):
            d.fail('zipConnectivity merged cells whose values differ by .25 (eps %g)' % eps)
        return
    r = f.zipConnectivity(comp, eps)
    eq(d, r, nd > 0, 'zipConnectivity return value')
    v = view(f)
    seen, want = set(), []
    for i, s in enumerate(src):
        if s not in seen:
            seen.add(s)
            want.append(v0[0][i])
    same_bag(d, v[0], want, 'cells after zipConnectivity')
    if v[1] is not None:
        same(d, v[1], v0[1], 'nodes after zipConnectivity')
    eq(d, meta(f), mt, 'metadata after zipConnectivity')


@check(n=2500, rule='some cell is split')
def simplexize(d):
    """simplexize: a value per simplex equal to the one of the cell it comes from, nodes kept"""
    pm = gen.mesh2d(d, 3, kinds=('quad', 'tri')) if d.bool() else gen.mesh3d(d, nmax=2, kinds=d.choice([('asis',), ('asis', 'tets')]), kinds2=('quad',))
    if d.bool():
        pm = gen.shuffle(d, pm)
    F = anyfield(d, d.weighted([(5, 'cell'), (2, 'node')]), kind='double', pm=pm)
    md = F.pm.md
    pol = d.choice([0, 1]) if md == 2 else d.choice([mc.PLANAR_FACE_5, mc.PLANAR_FACE_6])
    if md == 3:
        d.assume(all(t in (TETRA4, HEXA8) for t, c in F.pm.cells))
    else:
        d.assume(all(t in (TRI3, QUAD4) for t, c in F.pm.cells))
    m = to_mc(F.pm)
    f = F.build(m)
    v0, mt = view(f), meta(f)
    d.sample('policy %r %r' % (pol, F))
    split = any(t in (QUAD4, HEXA8) for t, c in F.pm.cells)
    d.nontrivial(split)
    r = f.simplexize(pol)
    eq(d, r, split, 'simplexize return value')
    f.checkConsistencyLight()
    v = view(f)
    n = {TRI3: 1, TETRA4: 1, QUAD4: 2, HEXA8: 5 if pol == mc.PLANAR_FACE_5 else 6}
    want = [x for x in v0[0] for _ in range(n[x[0]])]
    eq(d, len(v[0]), len(want), 'number of simplices')
    for i, (a, b) in enumerate(zip(v[0], want)):
        if not set(a[1]) <= set(b[1]) or (F.disc == 'cell' and a[2] != b[2]):
            d.fail('simplex %d is %s, its cell is %s' % (i, short(a), short(b)))
    if v[1] is not None:
        same(d, v[1][:F.pm.nn], v0[1], 'nodes after simplexize')
    eq(d, meta(f), mt, 'metadata after simplexize')


@check(n=3000, rule='more than one tuple')
def convert_kind(d):
    """conversions of the type of the values keep mesh, discretization, times and values"""
    F = anyfield(d, td='one')
    F.tm['tol'] = 1e-12      # unknown to the other classes
    m = to_mc(F.pm)
    f = F.build(m)
    v0, mt = view(f), meta(f)
    d.nontrivial(len(F.arrays[0]) > 1)
    to = d.choice(['double', 'float', 'int'])
    d.label(F.kind + '->' + to)
    d.sample('%s %r' % (to, F))
    if F.kind == 'double':
        if to == 'int' or to == 'double':
            for a in F.arrays:
                a[:] = [tuple(float(int(x)) for x in r) for r in a]
            f = F.build(m)
            v0 = view(f)
            r = f.convertToIntField() if to == 'int' else f.convertToIntField().convertToDblField()
        else:
            r = f.convertToFloatField()
    else:
        r = f.convertToDblField()
    r.checkConsistencyLight()
    if r.getMesh().getHiddenCppPointer() != m.getHiddenCppPointer():
        d.fail('conversion: the mesh is not shared')
    v = view(r)
    same(d, v[0], v0[0], 'conversion of a field to ' + to)
    eq(d, v[1], v0[1], 'conversion of a field to ' + to)
    eq(d, meta(r), mt, 'metadata after a conversion to ' + to)
    eq(d, view(f)[0], v0[0], 'operand after a conversion')


@check(n=1500, rule='the mesh has quadratic cells')
def quadratic_to_linear(d):
    """convertQuadraticCellsToLinear: cell values kept, nodal values follow the kept nodes"""
    F = anyfield(d, d.choice(['cell', 'node']), kind='double', quad=.9)
    m = to_mc(F.pm)
    f = F.build(m)
    v0, mt = view(f), meta(f)
    d.nontrivial(any(is_quad(t) for t, c in F.pm.cells))
    d.sample(repr(F))
    r = f.convertQuadraticCellsToLinear()
    r.checkConsistencyLight()
    v = view(r)
    lin = [linear_conn(t, c) for t, c in F.pm.cells]
    want = []
    for i, (t, c) in enumerate(lin):
        val = v0[0][i][2]
        if F.disc == 'node':
            val = tuple(tuple(tuple(a[k]) for k in c) if t != POLYHED else v0[0][i][2][q] for q, a in enumerate(F.arrays))
        want.append((t, tuple(key(F.pm.xyz[k]) if k >= 0 else -1 for k in c), val, None))
    same(d, v[0], want, 'convertQuadraticCellsToLinear')
    if v[1] is not None:
        u = {k for t, c in lin for k in c if k >= 0}
        same_bag(d, v[1], [x for i, x in enumerate(v0[1]) if i in u], 'nodes after convertQuadraticCellsToLinear')
    eq(d, meta(r)[:3] + meta(r)[4:], mt[:3] + mt[4:], 'metadata')      # the nature is reset
    eq(d, view(f)[0], v0[0], 'operand')


@check(n=1200, rule='the slice crosses at least two cells')
def slice3d(d):
    """extractSlice3D: every cell of the slice carries the value of the 3D cell it comes from"""
    pm = gen.mesh3d(d, nmax=2)
    F = field(d, 'cell', pm=pm)
    # all distinct values: the value identifies the cell
    F.arrays = [[tuple(float(i * 10 + j + 1000 * k) for j in range(F.nc)) for i in range(pm.nc)] for k in range(len(F.arrays))]
    f = F.build(to_mc(pm))
    lo, hi = zip(*bbox(pm.xyz)) if len(bbox(pm.xyz)) == pm.sd else bbox(pm.xyz)
    o = [lo[k] + (hi[k] - lo[k]) * d.int(1, 6) / 7.13 for k in range(3)]
    n = [d.sint(5) + .137 for _ in range(3)]
    d.sample('origin %r normal %r %r' % (o, n, F))
    try:
        m2, ids = f.getMesh().buildSlice3D(o, n, 1e-10)
    except InterpKernelException:
        raise Discard()
    ids = L(ids)
    r = f.extractSlice3D(o, n, 1e-10)
    r.checkConsistencyLight()
    d.nontrivial(len(ids) > 1)
    eq(d, r.getMesh().isEqual(m2, 1e-12), True, 'mesh of extractSlice3D is the slice of the mesh')
    eq(d, data(r), [[a[i] for i in ids] for a in F.arrays], 'values of extractSlice3D')
    eq(d, meta(r), meta(f), 'metadata')
    # every cell of the slice lies in the bounding box of its cell
    pm2 = from_mc(r.getMesh())
    for k, (t, c) in enumerate(pm2.cells):
        ps = pm.pts(ids[k]) if t != POLYHED else None
        vs = [pm.xyz[v] for v in pm.cells[ids[k]][1] if v >= 0]
        for v in c:
            for x in range(3):
                if not min(p[x] for p in vs) - 1e-6 <= pm2.xyz[v][x] <= max(p[x] for p in vs) + 1e-6:
                    d.fail('cell %d of the slice is not inside cell %d of the mesh' % (k, ids[k]))


@check(n=2500, rule='at least two entities selected and one not selected')
def by_value(d):
    """findIdsInRange + restriction: the entities whose value is in the interval"""
    F = anyfield(d, 'cell', td=d.choice(['no', 'one', 'const']), nc=1, kind='double')
    f = F.build(to_mc(F.pm))
    v0 = view(f)
    a = d.sint(20) / 4.
    b = a + d.int(0, 20) / 4.
    got = L(f.findIdsInRange(a, b))
    want = [i for i, r in enumerate(F.arrays[0]) if a <= r[0] <= b]
    d.nontrivial(1 < len(want) < F.pm.nc)
    d.sample('[%g,%g] %r' % (a, b, F))
    eq(d, got, want, 'findIdsInRange(%g,%g)' % (a, b))
    if want:
        same(d, view(f[f.findIdsInRange(a, b)])[0], [v0[0][i] for i in want], 'part selected by value')


@check(n=2500, rule='at least two cells')
def keep_comp(d):
    """keepSelectedComponents / changeNbOfComponents / setSelectedComponents act on every array and keep the support"""
    F = anyfield(d, kind='double', nc=d.int(2, 4))
    f = F.build(to_mc(F.pm))
    mt = meta(f)
    d.nontrivial(F.pm.nc > 1)
    sel = [d.below(F.nc) for _ in range(d.int(1, F.nc))]
    d.sample('%r %r' % (sel, F))
    op = d.choice(['keep', 'change', 'set'])
    if op == 'keep':
        r = f.keepSelectedComponents(sel)
        want = [[tuple(x[c] for c in sel) for x in a] for a in F.arrays]
        infos = [F.infos[c] for c in sel]
    elif op == 'change':
        n = d.int(1, 5)
        r = f.deepCopy()
        r.changeNbOfComponents(n, 7.5)
        want = [[(tuple(x) + (7.5,) * 5)[:n] for x in a] for a in F.arrays]
        infos = (F.infos + [''] * 5)[:n]
    else:
        sel = d.sample_ids(F.nc, d.int(1, F.nc))
        g = f.keepSelectedComponents(sel)
        vals = [[tuple(x[c] * 2 + 1 for c in sel) for x in a] for a in F.arrays]
        g.setArrays([Dbl(v, len(sel)) for v in vals])
        r = f.deepCopy()
        r.setSelectedComponents(g, sel)
        want = [[tuple(x[c] * 2 + 1 if c in sel else x[c] for c in range(F.nc)) for x in a] for a in F.arrays]
        infos = None
    r.checkConsistencyLight()
    eq(d, data(r), want, op + ' components')
    eq(d, meta(r)[:1] + meta(r)[2:5], mt[:1] + mt[2:5], op + ' components: metadata')
    if infos is not None:
        for a in r.getArrays():
            eq(d, a.getInfoOnComponents(), infos, op + ' components: infos')
