"""C31 - renumbering and partition. Renumbering methods return permutations inverse of each other; a renumbered mesh and
its fields only change of order. Partition: every cell in exactly one part; the parts put together restitute geometry,
groups and fields."""
import glob
import sys
import os
import shutil
import tempfile
from fields import *


def any_graph(d):
    n = d.int(1, 12)
    adj = [set() for _ in range(n)]
    for _ in range(d.int(0, 2 * n)):
        a, b = d.below(n), d.below(n)
        if a != b:
            adj[a].add(b)
            adj[b].add(a)
    flat, idx = [], [0]
    for a in adj:
        flat += sorted(a)
        idx.append(len(flat))
    return n, flat, idx


def arr_i(v):
    a = mc.DataArrayInt(v) if v else mc.DataArrayInt.New()
    if not v:
        a.alloc(0, 1)
    return a


def perms(d, meth, n, g, i, what):
    r = mc.RenumberingFactory(meth)
    n2o, o2n = r.renumber(g, i)
    a, b = L(n2o), L(o2n)
    eq(d, sorted(a), list(range(n)), what + ': new to old is not a permutation')
    eq(d, sorted(b), list(range(n)), what + ': old to new is not a permutation')
    eq(d, [a[x] for x in b], list(range(n)), what + ': not inverse of each other')
    n2, o2 = mc.RenumberingFactory(meth).renumber(g.deepCopy(), i.deepCopy())
    eq(d, (L(n2), L(o2)), (a, b), what + ': second call')
    return a, b, o2n


def bandwidth(flat, idx, o2n):
    return max([0] + [abs(o2n[k] - o2n[j]) for k in range(len(idx) - 1) for j in flat[idx[k]:idx[k + 1]]])


@check(n=1000, rule='graph of at least three vertices with edges')
def graphs(d):
    """permutations computed for any graph, connected or not"""
    n, flat, idx = any_graph(d)
    meth = d.choice(list(mc.RenumberAvailableMethods()))
    d.nontrivial(n >= 3 and len(flat) > 0)
    d.sample('%s graph %s %s' % (meth, idx, flat))
    g, i = arr_i(flat), arr_i(idx)
    perms(d, meth.upper(), n, g, i, meth)
    eq(d, (L(g), L(i)), (flat, idx), 'the graph')


@check(n=1000, rule='at least four cells')
def meshes(d):
    """renumbering a mesh and a field only changes the order of the cells"""
    pm = gen.any_mesh(d, (1, 2, 3), 4)
    m = to_mc(pm)
    nc = m.getNumberOfCells()
    meth = d.choice(list(mc.RenumberAvailableMethods()))
    d.nontrivial(nc >= 4)
    d.sample('%s on %s' % (meth, short(pm)))
    g, i = m.computeNeighborsOfCells()
    g0, i0 = L(g), L(i)
    n2o, o2n, arr = perms(d, meth.upper(), nc, g, i, meth)
    f = mc.MEDCouplingFieldDouble(mc.ON_CELLS)
    f.setMesh(m)
    vals = [float(d.sint(99)) for _ in range(nc)]
    f.setArray(mc.DataArrayDouble(vals))
    m2 = m.deepCopy()
    m2.renumberCells(arr, False)
    eq(d, [(m2.getTypeOfCell(k), list(m2.getNodeIdsOfCell(k))) for k in range(nc)],
       [(m.getTypeOfCell(k), list(m.getNodeIdsOfCell(k))) for k in n2o], 'renumbered cells')
    f2 = f.deepCopy()
    f2.renumberCells(arr, False)
    d.check(f2.getMesh().isEqual(m2, 1e-12), 'mesh of the renumbered field')
    eq(d, L(f2.getArray()), [vals[k] for k in n2o], 'renumbered values')
    # neighbours are carried by the permutation
    g2, i2 = m2.computeNeighborsOfCells()
    g2, i2 = L(g2), L(i2)
    eq(d, [sorted(g2[i2[k]:i2[k + 1]]) for k in range(nc)],
       [sorted(o2n[x] for x in g0[i0[k]:i0[k + 1]]) for k in n2o], 'neighbours of the renumbered cells')


def key(p):
    return tuple(round(x, 6) + 0. for x in p)


def centers(m):
    a = m.computeCellCenterOfMass() if 0 else m.computeIsoBarycenterOfNodesPerCell()
    return [key(t if isinstance(t, (tuple, list)) else (t,)) for t in T(a)]


def med_data(d):
    """MED data: mesh with faces, groups, families, fields on cells and on nodes"""
    md = d.weighted([(2, 2), (1, 3)])
    pm = gen.any_mesh(d, (md,), 4, quad=0.1, surf=False)
    m = to_mc(pm)
    m.sortCellsInMEDFileFrmt()
    m.zipCoords()
    m.setName('mesh')
    mm = ML().MEDFileUMesh()
    mm.setMeshAtLevel(0, m)
    nc = m.getNumberOfCells()
    faces = None
    if d.bool(.6):
        f = m.buildDescendingConnectivity()[0]
        keep = d.subset(f.getNumberOfCells())
        if keep:
            faces = f[arr_i(sorted(keep))]
            faces.sortCellsInMEDFileFrmt()
            faces.setName('mesh')
            mm.setMeshAtLevel(-1, faces)
    groups = {}

    def put(lev, n):
        gs = []
        for k in range(d.int(0, 2)):
            ids = sorted(d.subset(n))
            if not ids:
                continue
            a = arr_i(ids)
            nm = 'g%d_%d' % (-lev, k)
            a.setName(nm)
            gs.append(a)
            groups[(lev, nm)] = ids
        if gs:
            mm.setGroupsAtLevel(lev, gs)
    put(0, nc)
    if faces is not None:
        put(-1, faces.getNumberOfCells())
    ms = ML().MEDFileMeshes()
    ms.pushMesh(mm)
    data = ML().MEDFileData()
    data.setMeshes(ms)
    fs = ML().MEDFileFields()
    flds = {}
    # fields are carried for the classical 3D types only
    for k in range(d.int(0, 2) if set(m.getAllGeoTypes()) <= set((14, 15, 16, 18, 20, 23, 25, 30, 27, 22)) else 0):
        tf = mc.ON_CELLS
        nb = m.getNumberOfNodes() if tf == mc.ON_NODES else nc
        ncp = d.int(1, 2)
        ts = ML().MEDFileFieldMultiTS()
        for it in range(d.int(1, 2)):
            f = mc.MEDCouplingFieldDouble(tf, mc.ONE_TIME)
            f.setName('f%d' % k)
            f.setMesh(m)
            f.setTime(it + .5, it, -1)
            vals = [tuple(float(d.sint(99)) for _ in range(ncp)) for _ in range(nb)]
            f.setArray(mc.DataArrayDouble([x for t in vals for x in t], nb, ncp))
            ts.appendFieldNoProfileSBT(f)
            flds[('f%d' % k, it)] = (tf, vals)
        fs.pushField(ts)
    if flds:
        data.setFields(fs)
    return data, mm, m, faces, groups, flds


def check_parts(d, out, n, m, faces, groups, flds, what, extra=False):
    """out: list of (mesh of a part, fields of the part)"""
    eq(d, len(out), n, what + ': number of parts')
    want = {}
    for k, c in enumerate(centers(m)):
        want.setdefault((m.getTypeOfCell(k), c), []).append(k)
    d.assume(all(len(v) == 1 for v in want.values()))
    cx = m.getCoords()
    sd = m.getSpaceDimension()
    pts = [key(t if isinstance(t, (tuple, list)) else (t,)) for t in T(cx)]
    owner = {}
    wf = {}
    if faces is not None:
        for k, c in enumerate(centers(faces)):
            wf[(faces.getTypeOfCell(k), c)] = k
    seenf = {}
    gcell, gface = {}, {}
    parts = []
    for p in range(n):
        mp_ = out[p][0]
        if 0 not in mp_.getNonEmptyLevels():
            parts.append((mp_.getName(), None, None))
            continue
        pm = mp_.getMeshAtLevel(0)
        d.check(pm.getSpaceDimension() == sd and pm.getMeshDimension() == m.getMeshDimension(), what + ': dimensions')
        ids = []
        for k, c in enumerate(centers(pm)):
            kk = (pm.getTypeOfCell(k), c)
            d.check(kk in want, '%s: cell %d of part %d is not in the mesh: %s' % (what, k, p, kk))
            o = want[kk][0]
            d.check(o not in owner, '%s: cell %d in parts %s and %d' % (what, o, owner.get(o), p))
            owner[o] = p
            ids.append(o)
            pc = T(pm.getCoords())
            eq(d, [key(pc[x]) for x in pm.getNodeIdsOfCell(k)] if pm.getTypeOfCell(k) != mc.NORM_POLYHED else 0,
               [pts[x] for x in m.getNodeIdsOfCell(o)] if pm.getTypeOfCell(k) != mc.NORM_POLYHED else 0,
               what + ': nodes of cell %d' % o)
        for g in mp_.getGroupsOnSpecifiedLev(0):
            for x in L(mp_.getGroupArr(0, g)):
                gcell.setdefault(g, set()).add(ids[x])
        if -1 in mp_.getNonEmptyLevels():
            fm = mp_.getMeshAtLevel(-1)
            fid = []
            for k, c in enumerate(centers(fm)):
                kk = (fm.getTypeOfCell(k), c)
                if extra and kk not in wf:      # faces created between the parts
                    fid.append(None)
                    continue
                d.check(kk in wf, '%s: face %s of part %d is not in the mesh' % (what, kk, p))
                seenf.setdefault(wf[kk], []).append(p)
                fid.append(wf[kk])
            d.check(extra or len(set(fid)) == len(fid), what + ': repeated faces in part %d' % p)
            for g in mp_.getGroupsOnSpecifiedLev(-1):
                for x in L(mp_.getGroupArr(-1, g)):
                    gface.setdefault(g, set()).add(fid[x])
        parts.append((mp_.getName(), ids, [key(t if isinstance(t, (tuple, list)) else (t,)) for t in T(pm.getCoords())]))
    eq(d, sorted(owner), list(range(m.getNumberOfCells())), what + ': cells of the parts')
    if faces is not None:
        eq(d, sorted(seenf), list(range(faces.getNumberOfCells())), what + ': faces of the parts')
    for (lev, nm), ids in groups.items():
        got = (gcell if lev == 0 else gface).get(nm, set())
        if lev == -1 and extra:     # known finding: faces between parts leave their groups for the JOINT_ ones
            joint = set(x for g in gface if g.startswith('JOINT_') for x in gface[g])
            got = (set(got) | (set(ids) & joint)) - {None}
        eq(d, sorted(got), ids, what + ': group %s' % nm)
    eq(d, sorted(x for x in set(gcell) | set(gface) if not (extra and x.startswith('JOINT_'))), sorted(set(nm for l, nm in groups)), what + ': names of groups')
    # fields
    got = {}
    where = {}
    for k, p in enumerate(pts):
        where.setdefault(p, []).append(k)
    for p in range(n):
        mp_, fs = out[p]
        ids = parts[p][1]
        if fs is None or ids is None:
            continue
        for ts in fs:
            for f1 in ts:
                it = f1.getTime()[0]
                d.check((f1.getName(), it) in flds, what + ': unexpected field %s' % f1.getName())
                tf, vals = flds[(f1.getName(), it)]
                near(d, [f1.getTime()[2]], [it + .5], what + ': time', 1e-12)
                ff = f1.getFieldOnMeshAtLevel(tf, 0, mp_)
                rows = T(ff.getArray())
                o = got.setdefault((f1.getName(), it), {})
                if tf == mc.ON_NODES:
                    for c, r in zip(parts[p][2], rows):
                        o.setdefault(where[c][0], []).append(r)
                else:
                    for k, r in zip(ids, rows):
                        o.setdefault(k, []).append(r)
    for k, (tf, vals) in flds.items():
        o = got.get(k, {})
        eq(d, sorted(o), list(range(len(vals))), what + ': support of the field %s' % (k,))
        for x, rs in o.items():
            for r in rs:
                eq(d, tuple(r), vals[x], what + ': field %s, entity %d' % (k, x))


def ML():
    import MEDLoader
    return MEDLoader


class quiet(object):
    """partition prints on the standard outputs and writes nothing elsewhere; files go in a scratch directory"""

    def __enter__(self):
        self.cwd = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='c31_')
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)


def forked(fn):
    """run fn in a child process (the partitioner keeps global tables from one file to the next); its status"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        st = 1
        try:
            fn()
            st = 0
        finally:
            os._exit(st)
    return os.waitpid(pid, 0)[1]


def partitioner():
    import MEDPartitioner
    return MEDPartitioner


def demo_joint_groups():
    """creation of boundary faces: the faces between two parts are taken away from the groups they are in"""
    m = mc.MEDCouplingCMesh()
    x = mc.DataArrayDouble([float(i) for i in range(5)])
    m.setCoords(x, x[:3])
    m = m.buildUnstructured()
    m.setName('mesh')
    mm = ML().MEDFileUMesh()
    mm.setMeshAtLevel(0, m)
    f = m.buildDescendingConnectivity()[0]
    f.setName('mesh')
    mm.setMeshAtLevel(-1, f)
    g = mc.DataArrayInt.Range(0, f.getNumberOfCells(), 1)
    g.setName('all')
    mm.setGroupsAtLevel(-1, [g])
    ms = ML().MEDFileMeshes()
    ms.pushMesh(mm)
    data = ML().MEDFileData()
    data.setMeshes(ms)
    with quiet():
        out = partitioner().MEDPartitioner(data, 2, 'metis', True, False, False).getMEDFileData().getMeshes()
        got = set()
        for i in range(2):
            p = out.getMeshAtPos(i)
            cs = centers(p.getMeshAtLevel(-1))
            got |= set(cs[k] for k in L(p.getGroupArr(-1, 'all')))
    return len(got) < f.getNumberOfCells()


@check(n=400, rule='at least two parts, and groups or fields')
def partition(d):
    """the parts of a mesh put together give back cells, faces, groups and fields"""
    mp = partitioner()
    data, mm, m, faces, groups, flds = med_data(d)
    nc = m.getNumberOfCells()
    d.assume(nc >= 4)
    pts = T(m.getCoords())
    d.assume(len(set(key(p) for p in pts)) == len(pts))
    n = d.int(2 if flds else 1, min(4, nc // 2))
    d.nontrivial(n > 1 and bool(groups or flds))
    d.sample('%d cells %s in %d parts, faces %s groups %s fields %s' % (nc, short(gen_pm(m)) if 0 else T(m.computeCellCenterOfMass()) if 0 else m.getAllGeoTypes(), n, faces and faces.getNumberOfCells(), sorted(groups), sorted(flds)))
    cbf, joints = d.bool(.3), d.bool(.3)
    with quiet():
        if flds or d.bool(.5):
            data.write('in.med', 2)
            def job():
                mp.MEDPartitioner('in.med', n, 'metis', cbf, joints, False).write('out')
            st = forked(job)
            if st:
                d.fail('partition of a file ended with status %s' % st)
        else:
            p = mp.MEDPartitioner(data, n, 'metis', cbf, joints, False)
            p.write('out')
            ms = p.getMEDFileData().getMeshes()
            check_parts(d, [(ms.getMeshAtPos(i), None) for i in range(ms.getNumberOfMeshes())], n, m, faces, groups, {},
                        'partition in memory (boundary faces %d, joints %d)' % (cbf, joints), cbf)
        out = []
        for f in sorted(glob.glob('out*.med')):
            x = ML().MEDFileData(f)
            eq(d, x.getMeshes().getNumberOfMeshes(), 1, 'meshes of a file')
            out.append((x.getMeshes().getMeshAtPos(0), x.getFields()))
        check_parts(d, out, n, m, faces, groups, flds, 'partition (boundary faces %d, joints %d)' % (cbf, joints), cbf)


@check(n=400, rule='at least two parts')
def graph_partition(d):
    """partition of a graph given by the caller: every vertex in one part"""
    mp = partitioner()
    pm = gen.any_mesh(d, (2, 3), 4, quad=0., surf=False)
    m = to_mc(pm)
    m.sortCellsInMEDFileFrmt()
    nc = m.getNumberOfCells()
    d.assume(nc >= 4)
    n = d.int(1, min(4, nc // 2))
    d.nontrivial(n > 1)
    d.sample('%d cells, %d parts' % (nc, n))
    sk = m.generateGraph()
    g = mp.MEDPartitioner.Graph(sk)
    g.partGraph(n)
    part = g.getPartition()
    vals = L(part.getValuesArray())
    eq(d, L(part.getIndexArray()), list(range(nc + 1)), 'index of the partition')
    eq(d, len(vals), nc, 'size of the partition')
    d.check(all(0 <= x < n for x in vals), 'parts %s' % vals)
    eq(d, g.nbVertices(), nc, 'nbVertices')
    g2 = mp.MEDPartitioner.Graph(m.generateGraph())
    g2.partGraph(n)
    eq(d, L(g2.getPartition().getValuesArray()), vals, 'second partition')
    m.setName('mesh')
    mm = ML().MEDFileUMesh()
    mm.setMeshAtLevel(0, m)
    ms = ML().MEDFileMeshes()
    ms.pushMesh(mm)
    data = ML().MEDFileData()
    data.setMeshes(ms)
    cs = centers(m)
    d.assume(len(set(cs)) == len(cs))
    with quiet():
        out = mp.MEDPartitioner(data, g).getMEDFileData()
    ids = {c: k for k, c in enumerate(cs)}
    meshes = out.getMeshes()
    eq(d, meshes.getNumberOfMeshes(), n, 'number of parts')
    for p in range(n):
        x = meshes.getMeshAtPos(p)
        got = sorted(ids[c] for c in centers(x.getMeshAtLevel(0))) if 0 in x.getNonEmptyLevels() else []
        eq(d, got, [k for k in range(nc) if vals[k] == p], 'cells of part %d' % p)
