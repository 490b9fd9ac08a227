"""Shared by the checks on files: scratch directories, generated MED meshes with their model."""
import os
import shutil
import tempfile
import math
import ref
import gen
from ref import PM
from common import *

WORDS = ['a', 'mesh', 'Mesh', 'skin', 'x y', 'with.dot', 'under_score', 'tr-et', '12', 'a' * 30, 'Zone(1)', 'b' * 60]


def ML():
    import MEDLoader
    return MEDLoader


class scratch(object):
    """scratch directory, removed at the end"""

    def __enter__(self):
        self.cwd = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='med_')
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)


def words(d, n, prefix=''):
    out = []
    for k in range(n):
        w = prefix + d.choice(WORDS)
        while w in out:
            w = (w + '_%d' % k)[-64:]
        out.append(w[:64])
    return out


def arr_i(v, name=None):
    a = mc.DataArrayInt([int(x) for x in v])
    if not v:
        a = mc.DataArrayInt(0, 1)
    if name is not None:
        a.setName(name)
    return a


def infos(d, sd):
    return [d.choice(['X [m]', 'Y [mm]', 'Z [km]', 'X', '', 'long name [kg]']) for _ in range(sd)]


class MM(object):
    """model of a MED mesh: levels -> cells, groups, numbering"""

    def __init__(self):
        self.levels = {}        # lev -> MEDCouplingUMesh (ordered by type)
        self.groups = {}        # (lev, name) -> sorted ids ; lev 1 = nodes
        self.num = {}
        self.names = {}


def attributes(d, mm, m):
    m.name = d.choice(WORDS)
    mm.setName(m.name)
    m.desc = d.choice(['', 'a description', 'd' * 150])
    mm.setDescription(m.desc)
    m.time = (-1, -1, d.choice([0., 1.5, -2.25]))       # the only iteration accepted by the MED library at hand
    mm.setTime(*m.time)
    m.unit = d.choice(['', 's', 'ms'])
    mm.setTimeUnit(m.unit)


def size(m, lev):
    return m.coords.getNumberOfTuples() if lev == 1 else m.levels[lev].getNumberOfCells()


def rnd_umesh(d, nmax=3, quad=.25, points=False, number=True, dims=(1, 2, 3)):
    """MEDFileUMesh and its model"""
    md = d.weighted([(w, k) for k, w in ((1, 1), (2, 3), (3, 3)) if k in dims])
    pm = gen.any_mesh(d, (md,), nmax, quad=quad, surf=True)
    mesh = to_mc(pm)
    mesh.sortCellsInMEDFileFrmt()
    m = MM()
    mm = ML().MEDFileUMesh()
    c = mesh.getCoords()
    c.setInfoOnComponents(infos(d, c.getNumberOfComponents()))
    attributes(d, mm, m)
    mesh.setName(m.name)
    m.coords = c.deepCopy()
    m.levels[0] = mesh
    cur = mesh
    isq = any(ref.is_quad(t) for t, _ in pm.cells)
    for lev in (-1, -2):
        if md + lev < 1 or not d.bool(.6) or any(t == ref.POLYHED and 0 for t, _ in pm.cells):
            break
        f = cur.buildDescendingConnectivity()[0]
        keep = sorted(d.subset(f.getNumberOfCells()))
        if not keep:
            break
        f = f[arr_i(keep)]
        f.sortCellsInMEDFileFrmt()
        f.setName(m.name)
        m.levels[lev] = f
        cur = f
    for lev in sorted(m.levels, reverse=True):
        x = m.levels[lev]
        mm.setMeshAtLevel(lev, x)
    rnd_groups(d, mm, m)
    if number:
        for lev in list(m.levels) + [1]:
            n = size(m, lev)
            if d.bool(.25):
                v = [x * 3 + 5 for x in d.perm(n)]
                m.num[lev] = v
                mm.setRenumFieldArr(lev, arr_i(v))
            if d.bool(.15):
                v = [d.choice(['n%d', 'name %d', 'long_%d'])[:12] % k for k in range(n)]
                m.names[lev] = v
                a = mc.DataArrayAsciiChar([(x + ' ' * 16)[:16] for x in v]) if n else None
                if a is not None:
                    mm.setNameFieldAtLevel(lev, a)
                else:
                    del m.names[lev]
    return mm, m


def rnd_groups(d, mm, m):
    for lev in list(m.levels) + [1]:
        gs = []
        if d.bool(.3):
            continue
        for w in words(d, d.int(1, 3), 'G%d' % -lev if d.bool() else ''):
            ids = sorted(d.subset(size(m, lev)))
            if not ids or any(nm == w for l, nm in m.groups):
                continue
            gs.append(arr_i(ids, w))
            m.groups[(lev, w)] = ids
        if gs:
            mm.setGroupsAtLevel(lev, gs)


def check_groups(d, mm, m, what):
    want = set(g for l, g in m.groups)
    got = set(g for g in mm.getGroupsNames() if g in want or mm.getGrpNonEmptyLevelsExt(g))     # empty groups may stay
    eq(d, sorted(got), sorted(want), what + ': names of the groups')
    byname = {}
    for (lev, g), ids in m.groups.items():
        byname.setdefault(g, {})[lev] = ids
    for g, x in byname.items():
        levs = [l for l in x if x[l]]
        eq(d, sorted(mm.getGrpNonEmptyLevelsExt(g)), sorted(levs), what + ': levels of group %s' % g)
        for lev in levs:
            eq(d, L(mm.getGroupArr(lev, g)), x[lev], what + ': group %s at level %d' % (g, lev))
    for lev in list(m.levels) + [1]:
        want = sorted(g for g, x in byname.items() if x.get(lev))
        eq(d, sorted(mm.getGroupsOnSpecifiedLev(lev)), want, what + ': groups at level %d' % lev)


def check_umesh(d, mm, m, what):
    """contents of a MEDFileUMesh against its model"""
    eq(d, (mm.getName(), mm.getDescription(), mm.getTimeUnit()), (m.name, m.desc, m.unit), what + ': name, description, unit')
    t = mm.getTime()
    eq(d, (t[0], t[1], t[2]), m.time, what + ': time')
    eq(d, sorted(mm.getNonEmptyLevels()), sorted(m.levels), what + ': levels')
    d.check(mm.getCoords().isEqualWithoutConsideringStr(m.coords, 0.), what + ': coordinates')
    eq(d, list(mm.getCoords().getInfoOnComponents()), list(m.coords.getInfoOnComponents()), what + ': components of the coordinates')
    for lev, x in m.levels.items():
        y = mm.getMeshAtLevel(lev)
        eq(d, L(y.getNodalConnectivity()), L(x.getNodalConnectivity()), what + ': connectivity at level %d' % lev)
        eq(d, L(y.getNodalConnectivityIndex()), L(x.getNodalConnectivityIndex()), what + ': index at level %d' % lev)
    check_groups(d, mm, m, what)
    for lev in list(m.levels) + [1]:
        a = mm.getNumberFieldAtLevel(lev)
        eq(d, a and L(a), m.num.get(lev), what + ': numbering at level %d' % lev)
        a = mm.getNameFieldAtLevel(lev)
        eq(d, a and [a.getTuple(k).rstrip('\0 ') if 0 else ''.join(a.getTuple(k)).rstrip('\0 ') for k in range(a.getNumberOfTuples())], m.names.get(lev), what + ': names at level %d' % lev)
