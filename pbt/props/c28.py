"""C28 - meshes written in a MED file and read back; groups and families; histories of a file."""
import copy
import pickle
from medio import *
from engine import check


@check(n=250, rule='several levels, groups or several types')
def umesh(d):
    """unstructured meshes with levels, groups, numbering: written, read, copied, serialized"""
    mm, m = rnd_umesh(d)
    d.nontrivial(len(m.levels) > 1 or len(m.groups) > 0 or len(m.levels[0].getAllGeoTypes()) > 1)
    d.sample('levels %s, types %s, groups %s' % (sorted((k, x.getNumberOfCells()) for k, x in m.levels.items()), m.levels[0].getAllGeoTypes(), sorted((k, len(v)) for k, v in m.groups.items())))
    check_umesh(d, mm, m, 'before writing')
    with scratch():
        mm.write('f.med', 2)
        check_umesh(d, mm, m, 'after writing')
        r = ML().MEDFileUMesh('f.med') if d.bool(.3) else ML().MEDFileUMesh('f.med', m.name, m.time[0], m.time[1]) if d.bool() else ML().MEDFileMesh.New('f.med', m.name)
        check_umesh(d, r, m, 'read')
        ok, why = r.isEqual(mm, 0.)
        d.check(ok, 'mesh read: %s' % why)
        # basic interface
        for lev in m.levels:
            x = ML().ReadUMeshFromFile('f.med', m.name, lev)
            y = mm.getMeshAtLevel(lev, True)
            y = y.deepCopy()
            y.setTime(x.getTime()[0], -1, -1)      # not set by the basic interface
            y.setTimeUnit(x.getTimeUnit())
            ok, why = x.isEqualIfNotWhy(y, 0.)
            d.check(ok, 'ReadUMeshFromFile at level %d: %s' % (lev, why))
        eq(d, list(ML().GetMeshNames('f.med')), [m.name], 'GetMeshNames')
        eq(d, sorted(ML().GetMeshGroupsNames('f.med', m.name)), sorted(set(g for l, g in m.groups)), 'GetMeshGroupsNames')
        eq(d, sorted(ML().GetMeshFamiliesNames('f.med', m.name)), sorted(mm.getFamiliesNames()), 'GetMeshFamiliesNames')
        for g in set(g for l, g in m.groups if l < 1):
            levs = [l for l, w in m.groups if w == g and l < 1]
            lev = max(levs)
            x = ML().ReadUMeshFromGroups('f.med', m.name, lev, [g])
            y = m.levels[lev][arr_i(m.groups[(lev, g)])]
            key = (lambda v: v) if m.num.get(lev) is None else (lambda v: sorted(v, key=repr))      # cells are renumbered
            eq(d, key(cells_xyz(x)), key(cells_xyz(y)), 'ReadUMeshFromGroups')
        # second generation
        r.write('g.med', 2)
        check_umesh(d, ML().MEDFileUMesh('g.med'), m, 'second generation')
    for what, r in (('deepCopy', mm.deepCopy()), ('pickle', pickle.loads(pickle.dumps(mm, pickle.HIGHEST_PROTOCOL)))):
        if what == 'pickle':        # names are not serialized
            m2 = copy.copy(m)
            m2.names, m2.unit = {}, ''
            check_umesh(d, r, m2, what) if not m.names else None
        else:
            check_umesh(d, r, m, what)


def cells_xyz(m):
    q = from_mc(m)
    return [(t, [q.xyz[v] if v >= 0 else -1 for v in c]) for t, c in q.cells]


@check(n=250, rule='several types of cells')
def basic(d):
    """WriteUMesh/ReadUMeshFromFile"""
    pm = gen.any_mesh(d, (0, 1, 2, 3) if d.bool(.1) else (1, 2, 3), 3, quad=.3)
    m = to_mc(pm)
    m.sortCellsInMEDFileFrmt()
    m.setName(d.choice(WORDS))
    m.setDescription(d.choice(['', 'a description']))
    m.setTime(0., -1, -1)       # the basic interface does not store the time of the mesh
    m.getCoords().setInfoOnComponents(infos(d, pm.sd))
    d.nontrivial(len(m.getAllGeoTypes()) > 1)
    d.sample('%s' % short(pm))
    with scratch():
        ML().WriteUMesh('f.med', m, True) if d.bool() else ML().WriteMesh('f.med', m, True)
        r = ML().ReadUMeshFromFile('f.med', m.getName(), 0) if d.bool() else ML().ReadMeshFromFile('f.med')
        ok, why = r.isEqualIfNotWhy(m, 0.)
        d.check(ok, 'mesh read: %s' % why)
        eq(d, ML().CheckFileForRead('f.med'), None, 'CheckFileForRead')
        # several parts in one file
        if pm.md >= 2 and d.bool():
            f = m.buildDescendingConnectivity()[0]
            keep = sorted(d.subset(f.getNumberOfCells()))
            if keep:
                f = f[arr_i(keep)]
                f.sortCellsInMEDFileFrmt()
                f.copyTinyInfoFrom(m)
                ML().WriteUMeshes('g.med', [m, f], True)
                for lev, x in ((0, m), (-1, f)):
                    r = ML().ReadUMeshFromFile('g.med', m.getName(), lev)
                    d.check(r.isEqual(x, 0.), 'level %d of WriteUMeshes' % lev)


def structured(d):
    sd = d.int(1, 3)
    k = d.choice(['c', 'cl'])
    sizes = [d.int(2, 4) for _ in range(sd)]
    if k == 'c':
        m = mc.MEDCouplingCMesh()
        for i, n in enumerate(sizes):
            a = mc.DataArrayDouble(gen.incr(d, n))
            a.setInfoOnComponent(0, d.choice(['X [m]', 'foo', '']))
            m.setCoordsAt(i, a)
        mm = ML().MEDFileCMesh()
    else:
        m = mc.MEDCouplingCurveLinearMesh()
        m.setNodeGridStructure(sizes)
        n = math.prod(sizes)
        a = mc.DataArrayDouble([(float(d.sint(40)) / 8) for _ in range(n * sd)], n, sd)
        a.setInfoOnComponents(infos(d, sd))
        m.setCoords(a)
        mm = ML().MEDFileCurveLinearMesh()
    return m, mm, k, sizes


@check(n=250, rule='groups or a mesh of dimension 2 or 3')
def grids(d):
    """Cartesian and curvilinear meshes"""
    m, mm, k, sizes = structured(d)
    t = MM()
    attributes(d, mm, t)
    m.setName(t.name)
    m.setDescription(t.desc)
    m.setTime(t.time[2], t.time[0], t.time[1])
    m.setTimeUnit(t.unit)
    mm.setMesh(m)
    m = m.deepCopy()
    nc, nn = m.getNumberOfCells(), m.getNumberOfNodes()
    groups = {}
    for lev, n in ((0, nc), (1, nn)):
        gs = []
        for w in words(d, d.int(0, 2), 'g%d' % lev):
            ids = sorted(d.subset(n))
            if ids:
                gs.append(arr_i(ids, w))
                groups[(lev, w)] = ids
        if gs:
            mm.setGroupsAtLevel(lev, gs)
    d.nontrivial(bool(groups) or len(sizes) > 1)
    d.sample('%s %s groups %s' % (k, sizes, sorted(groups.items())))
    with scratch():
        mm.write('f.med', 2)
        r = ML().MEDFileMesh.New('f.med')
        ok, why = r.isEqual(mm, 0.)
        d.check(ok, 'mesh read: %s' % why)
        eq(d, (r.getMeshAtLevel(0).getName(), m.getName()), (t.name, t.name), 'names')
        ok, why = r.getMeshAtLevel(0).isEqualIfNotWhy(m, 0.)
        d.check(ok, 'structured mesh read: %s' % why)
        for (lev, w), ids in groups.items():
            eq(d, L(r.getGroupArr(lev, w)), ids, 'group %s' % w)
        eq(d, sorted(r.getGroupsNames()), sorted(w for l, w in groups), 'names of groups')
        ML().WriteMesh('h.med', m, True)
        ok, why = ML().ReadMeshFromFile('h.med', t.name).isEqualIfNotWhy(m, 0.)
        d.check(ok, 'ReadMeshFromFile: %s' % why)
        eq(d, (r.getTime()[0], r.getTime()[1], r.getTime()[2]), t.time, 'time')


@check(n=250, rule='at least three edits')
def edits(d):
    """groups are sets of ids whatever the edits made"""
    mm, m = rnd_umesh(d, 2, quad=.1, number=False)
    ops = []
    for _ in range(d.int(1, 7)):
        gs = sorted(m.groups)
        names = sorted(set(g for l, g in gs))
        op = d.choice(['add', 'add', 'addnode', 'remove', 'removelev', 'rename', 'rearrange', 'zip', 'orphan', 'famname', 'copy', 'set', 'io', 'erase'])
        lev = d.choice(sorted(m.levels) + [1])
        if op in ('add', 'addnode'):
            if op == 'addnode':
                lev = 1
            w = 'new%d' % len(ops)
            ids = sorted(d.subset(size(m, lev)))
            if not ids:
                continue
            (mm.addNodeGroup(arr_i(ids, w)) if op == 'addnode' else mm.addGroup(lev, arr_i(ids, w)))
            m.groups[(lev, w)] = ids
        elif op == 'remove' and names:
            w = d.choice(names)
            mm.removeGroup(w)
            for k in [k for k in m.groups if k[1] == w]:
                del m.groups[k]
        elif op == 'removelev' and gs:
            lv, w = d.choice(gs)
            mm.removeGroupAtLevel(lv, w)
            del m.groups[(lv, w)]
        elif op == 'rename' and names:
            w = d.choice(names)
            w2 = 'ren%d' % len(ops)
            mm.changeGroupName(w, w2)
            for k in [k for k in m.groups if k[1] == w]:
                m.groups[(k[0], w2)] = m.groups.pop(k)
        elif op == 'onall' and mm.getFamilyFieldAtLevel(lev) is not None:
            w = 'all%d' % len(ops)
            mm.createGroupOnAll(lev, w)
            m.groups[(lev, w)] = list(range(size(m, lev)))
        elif op == 'rearrange':
            mm.rearrangeFamilies()
        elif op == 'zip':
            mm.zipFamilies()
        elif op == 'assign':
            mm.assignFamilyNameWithGroupName()
        elif op == 'norm':
            mm.normalizeFamIdsMEDFile()
        elif op == 'norm3' and mm.getFamiliesNames():
            mm.ensureDifferentFamIdsPerLevel()
        elif op == 'orphan':
            mm.removeOrphanFamilies() if d.bool() else mm.removeOrphanGroups()
        elif op == 'famname' and mm.getFamiliesNames():
            mm.changeFamilyName(d.choice(sorted(mm.getFamiliesNames())), 'fam%d' % len(ops))
        elif op == 'copy':
            mm = mm.deepCopy() if d.bool() else mm.shallowCpy()
        elif op == 'erase':
            mm.eraseGroupsAtLevel(lev)
            for k in [k for k in m.groups if k[0] == lev]:
                del m.groups[k]
        elif op == 'set':
            gl = {}
            for w in ('s%da' % len(ops), 's%db' % len(ops)):
                ids = sorted(d.subset(size(m, lev)))
                if ids:
                    gl[w] = ids
            if not gl:
                continue
            for k in [k for k in m.groups if k[0] == lev]:
                del m.groups[k]
            m.groups.update(((lev, w), v) for w, v in gl.items())
            gl = [arr_i(v, w) for w, v in gl.items()]
            mm.setGroupsAtLevel(lev, gl)
        elif op == 'io':
            with scratch():
                mm.write('f.med', 2)
                mm = ML().MEDFileUMesh('f.med')
        else:
            continue
        ops.append((op, lev))
        for g in mm.getGroupsNames():
            f = mm.getFamiliesOnGroup(g)
            d.check(len(set(f)) == len(f), 'families %s of group %s after %s' % (f, g, ops))
        check_groups(d, mm, m, 'after %s' % ops)
        # families partition the entities; union of groups
        for lv in list(m.levels) + [1]:
            here = sorted(g for l, g in m.groups if l == lv)
            if here:
                some = sorted(d.subset(len(here))) or [0]
                want = sorted(set(x for k in some for x in m.groups[(lv, here[k])]))
                eq(d, L(mm.getGroupsArr(lv, [here[k] for k in some])), want, 'union of groups after %s' % ops)
            a = mm.getFamilyFieldAtLevel(lv)
            if a is not None:
                eq(d, a.getNumberOfTuples(), size(m, lv), 'size of the families')
                fams = [f for f in mm.getFamiliesNames() if lv in mm.getFamNonEmptyLevelsExt(f)]
                allv = sorted(x for f in fams for x in L(mm.getFamilyArr(lv, f)))
                known = set(mm.getFamilyId(f) for f in mm.getFamiliesNames())
                eq(d, allv, [k for k, x in enumerate(L(a)) if x in known], 'families after %s' % ops)
    d.nontrivial(len(ops) >= 3)
    d.sample('%s' % ops)
    with scratch():
        mm.write('f.med', 2)
        r = ML().MEDFileUMesh('f.med')
        check_groups(d, r, m, 'written after %s' % ops)
        check_umesh(d, r, m, 'written after %s' % ops)


@check(n=200, rule='at least three writes')
def histories(d):
    """writes in the same file leave the other meshes intact"""
    with scratch():
        st = {}
        ops = []
        for k in range(d.int(2, 6)):
            kind = d.choice(['u', 'u', 's'])
            if kind == 'u':
                mm, m = rnd_umesh(d, 2, quad=.1)
                m.time = (-1, -1, 0.)
                mm.setTime(-1, -1, 0.)
            else:
                g, mm, kk, sizes = structured(d)
                mm.setMesh(g)
                m = None
            nm = d.choice(['A', 'B', 'C', 'D'])
            mm.setName(nm)
            if m is not None:
                m.name = nm
            mode = 2 if k == 0 else d.weighted([(5, 1), (1, 2), (4, 0)])
            if mode == 1 and kind == 's' and kk == 'cl':
                mode = 0        # the MED library refuses the coordinates of a curvilinear mesh in extension mode
            if mode == 2:
                st = {}
                mm.write('f.med', 2)
                st[nm] = (mm, m)
            elif nm in st:
                continue
            else:
                mm.write('f.med', mode)
                st[nm] = (mm, m)
            ops.append((kind, nm, mode))
            eq(d, sorted(ML().GetMeshNames('f.med')), sorted(st), 'names after %s' % ops)
            for n2, (x, m2) in st.items():
                r = ML().MEDFileMesh.New('f.med', n2)
                ok, why = r.isEqual(x, 0.)
                d.check(ok, 'mesh %s after %s: %s' % (n2, ops, why))
                if m2 is not None:
                    check_umesh(d, r, m2, 'mesh %s after %s' % (n2, ops))
        ms = ML().MEDFileMeshes('f.med')
        eq(d, sorted(ms.getMeshesNames()), sorted(st), 'MEDFileMeshes')
        for n2, (x, m2) in st.items():
            ok, why = ms[n2].isEqual(x, 0.)
            d.check(ok, 'mesh %s of MEDFileMeshes: %s' % (n2, why))
        ms.write('g.med', 2)
        for n2, (x, m2) in st.items():
            ok, why = ML().MEDFileMesh.New('g.med', n2).isEqual(x, 0.)
            d.check(ok, 'mesh %s of the second file: %s' % (n2, why))
        d.nontrivial(len(ops) >= 3)
        d.sample('%s' % ops)


@check(n=200, rule='several levels or groups')
def transforms(d):
    """zipCoords, extractPart, quadratic conversions of MED meshes keep cells and groups"""
    mm, m = rnd_umesh(d, 2, quad=0., number=False)
    d.nontrivial(len(m.levels) > 1 or len(m.groups) > 0)
    d.sample('levels %s' % sorted((k, x.getNumberOfCells()) for k, x in m.levels.items()))
    xyz = {lev: cells_xyz(x) for lev, x in m.levels.items()}
    z = mm.deepCopy()
    o2n = z.zipCoords()
    for lev in m.levels:
        eq(d, cells_xyz(z.getMeshAtLevel(lev)), xyz[lev], 'zipCoords, level %d' % lev)
    pts = T(m.coords)
    used = [False] * len(pts)
    for x in m.levels.values():
        for i in L(x.computeFetchedNodeIds()):
            used[i] = True
    eq(d, z.getNumberOfNodes(), sum(used), 'nodes after zipCoords')
    eq(d, sorted(L(mm.computeFetchedNodeIds())), [i for i, u in enumerate(used) if u], 'computeFetchedNodeIds')
    for (lev, g), ids in m.groups.items():
        if lev < 1:
            eq(d, L(z.getGroupArr(lev, g)), ids, 'group after zipCoords')
        else:
            o2 = L(o2n) if o2n is not None else list(range(len(pts)))
            want = sorted(o2[i] for i in ids if used[i])
            if want:
                eq(d, L(z.getGroupArr(1, g)), want, 'node group after zipCoords')
    # part of the cells
    cells = {lev: sorted(d.subset(x.getNumberOfCells())) for lev, x in m.levels.items()}
    if cells[0]:
        sel = {lev: arr_i(v) for lev, v in cells.items() if v}
        e = mm.extractPart(sel)
        for lev, v in cells.items():
            if v:
                eq(d, cells_xyz(e.getMeshAtLevel(lev)), [xyz[lev][k] for k in v], 'extractPart, level %d' % lev)
                for (l, g), ids in m.groups.items():
                    if l == lev:
                        want = [k for k, x in enumerate(v) if x in ids]
                        got = L(e.getGroupArr(lev, g)) if want else []
                        eq(d, got, want, 'group %s of extractPart' % g)
    types = set(t for x in m.levels.values() for t in x.getAllGeoTypes())
    if types <= set((1, 3, 4, 14, 18, 16, 15)):
        q = mm.linearToQuadratic(0, 0.)
        b = q.quadraticToLinear(0.)
        for lev in m.levels:
            eq(d, [x[0] if 0 else len(x[1]) for x in cells_xyz(b.getMeshAtLevel(lev))], [len(x[1]) for x in xyz[lev]], 'quadratic and back, level %d' % lev)
            eq(d, cells_xyz(b.getMeshAtLevel(lev)), xyz[lev], 'quadratic and back, level %d' % lev)
        for (lev, g), ids in m.groups.items():
            if lev < 1:
                eq(d, L(q.getGroupArr(lev, g)), ids, 'group after linearToQuadratic')
