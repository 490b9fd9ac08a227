"""C19 - adaptive Cartesian meshes (AMR): geometry of the tree of patches, patches created from a criterion, transfers
of fields between levels and ghost zones. Oracle: a tree of integer boxes kept in Python, every cell being located by
its absolute indices at its level."""
import itertools
from fields import *


class Node(object):
    def __init__(self, mesh, dims, off, fac_abs, level, father=None, box=None, patch_id=None):
        self.mesh, self.dims, self.off, self.fa, self.level = mesh, dims, off, fac_abs, level
        self.father, self.box, self.pid, self.kids, self.fac = father, box, patch_id, [], None

    def all(self):
        out = [self]
        for k in self.kids:
            out += k.all()
        return out

    def pos(self, ref):
        out, n = [], self
        while n is not ref:
            out.append(n.pid)
            n = n.father
        return out[::-1]


def prod(v):
    r = 1
    for x in v:
        r *= x
    return r


def lin(p, st):
    r, m = 0, 1
    for x, n in zip(p, st):
        r += x * m
        m *= n
    return r


def cells(box):
    """positions of a box, first axis fastest"""
    return [tuple(reversed(t)) for t in itertools.product(*[range(a, b) for a, b in reversed(box)])]


def overlap(b1, b2):
    return all(max(a[0], b[0]) < min(a[1], b[1]) for a, b in zip(b1, b2))


def add_patches(d, node, facs, maxn):
    f = facs[node.level]
    for _ in range(maxn):
        b = []
        for x in node.dims:
            lo = d.below(x)
            b.append((lo, d.int(lo + 1, min(x, lo + 4))))
        if any(overlap(b, k.box) for k in node.kids):
            continue
        node.mesh.addPatch(b, f)
        node.fac = f
        pid = len(node.kids)
        kid = Node(node.mesh[pid].getMesh(), [(p[1] - p[0]) * q for p, q in zip(b, f)],
                   [(o + p[0]) * q for o, p, q in zip(node.off, b, f)], [x * q for x, q in zip(node.fa, f)],
                   node.level + 1, node, b, pid)
        node.kids.append(kid)


def make(d, minfac=1, depth=None, maxn=3):
    dim = d.weighted([(1, 1), (4, 2), (1, 3)])
    dims = [d.int(2, 7 if dim < 3 else 4) for _ in range(dim)]
    org = [float(d.sint(5)) for _ in dims]
    dxyz = [d.choice([0.5, 1., 2., 0.25]) for _ in dims]
    m = mc.MEDCouplingCartesianAMRMesh('amr', dim, [x + 1 for x in dims], org, dxyz)
    root = Node(m, dims, [0] * dim, [1] * dim, 0)
    depth = d.int(0, 3 if dim < 3 else 2) if depth is None else depth
    facs = [[d.int(minfac, 3 if dim < 3 else 2) for _ in dims] for _ in range(depth + 1)]
    lev = [root]
    for i in range(depth):
        for n in lev:
            add_patches(d, n, facs, d.int(0, maxn))
        lev = [k for n in lev for k in n.kids]
        lev = lev[:6]
    root.org, root.dxyz, root.dim = org, dxyz, dim
    return root


def show(root):
    return 'cells %s, patches %s' % (root.dims, [(n.level, n.pos(root), n.box, n.father.fac) for n in root.all()[1:]][:4])


def ghosted(dims, g):
    return [x + 2 * g for x in dims]


@check(n=1500, rule='at least two levels of patches')
def tree(d):
    """positions, counts, ancestry, ranges and meshes deduced from the boxes"""
    root = make(d)
    dim = root.dim
    nodes = root.all()
    maxlev = max(n.level for n in nodes)
    d.nontrivial(maxlev >= 2)
    d.sample(show(root))
    g = d.int(0, 2)
    for n in nodes:
        m = n.mesh
        sub = n.all()
        w = 'mesh at %s' % n.pos(root)
        eq(d, m.getSpaceDimension(), dim, w + ' getSpaceDimension')
        eq(d, m.getNumberOfPatches(), len(n.kids), w + ' getNumberOfPatches')
        eq(d, len(m), len(n.kids), w + ' len')
        eq(d, m.getAbsoluteLevel(), n.level, w + ' getAbsoluteLevel')
        eq(d, m.getNumberOfCellsAtCurrentLevel(), prod(n.dims), w + ' getNumberOfCellsAtCurrentLevel')
        eq(d, m.getNumberOfCellsAtCurrentLevelGhost(g), prod(ghosted(n.dims, g)), w + ' ghost count')
        eq(d, m.getNumberOfCellsRecursiveWithOverlap(), sum(prod(x.dims) for x in sub), w + ' with overlap')
        eq(d, m.getNumberOfCellsRecursiveWithoutOverlap(),
           sum(prod(x.dims) - sum(prod([b - a for a, b in k.box]) for k in x.kids) for x in sub), w + ' without overlap')
        eq(d, m.getMaxNumberOfLevelsRelativeToThis(), max(x.level for x in sub) - n.level + 1, w + ' levels')
        im = m.getImageMesh()
        eq(d, list(im.getNodeStruct()), [x + 1 for x in n.dims], w + ' image structure')
        near(d, list(im.getOrigin()), [o + c * h / f for o, c, h, f in zip(root.org, n.off, root.dxyz, n.fa)],
             w + ' origin', 1e-12)
        near(d, list(im.getDXYZ()), [h / f for h, f in zip(root.dxyz, n.fa)], w + ' dxyz', 1e-12)
        if n.kids:
            eq(d, list(m.getFactors()), list(n.fac), w + ' factors')
        eq(d, m.getGodFather().getHiddenCppPointer(), root.mesh.getHiddenCppPointer(), w + ' godfather')
        if n.father:
            eq(d, m.getFather().getHiddenCppPointer(), n.father.mesh.getHiddenCppPointer(), w + ' father')
            eq(d, n.father.mesh.getPatchIdFromChildMesh(m), n.pid, w + ' getPatchIdFromChildMesh')
            p = n.father.mesh[n.pid]
            eq(d, [tuple(x) for x in p.getBLTRRange()], n.box, w + ' getBLTRRange')
            eq(d, [tuple(x) for x in p.getBLTRRangeRelativeToGF()], [(o, o + x) for o, x in zip(n.off, n.dims)],
               w + ' getBLTRRangeRelativeToGF')
            eq(d, list(p.computeCellGridSt()), n.dims, w + ' computeCellGridSt')
            eq(d, p.getNumberOfOverlapedCellsForFather(), prod([b - a for a, b in n.box]), w + ' overlapped')
            eq(d, p.getNumberOfCellsRecursiveWithOverlap(), sum(prod(x.dims) for x in sub), w + ' patch with overlap')
            eq(d, p.getMaxNumberOfLevelsRelativeToThis(), max(x.level for x in sub) - n.level + 1, w + ' patch levels')
            boxes, st = m.positionRelativeToGodFather()
            eq(d, [tuple(x) for x in boxes], [(o, o + x) for o, x in zip(n.off, n.dims)], w + ' positionRelativeToGF')
            eq(d, list(st), n.fa, w + ' positionRelativeToGF factors')
        # ancestry
        anc, a = [n], n
        while a.father:
            a = a.father
            anc.append(a)
        r = d.choice(anc)
        eq(d, list(m.getPositionRelativeTo(r.mesh)), n.pos(r), w + ' getPositionRelativeTo')
        eq(d, m.getAbsoluteLevelRelativeTo(r.mesh), n.level - r.level, w + ' getAbsoluteLevelRelativeTo')
        eq(d, r.mesh.getMeshAtPosition(n.pos(r)).getHiddenCppPointer(), m.getHiddenCppPointer(), w + ' getMeshAtPosition')
        if n is not r:
            eq(d, r.mesh.getPatchAtPosition(n.pos(r)).getMesh().getHiddenCppPointer(), m.getHiddenCppPointer(),
               w + ' getPatchAtPosition')
        # neighbourhood of patches: boxes whose gap is smaller than the width of the zone (ghost>0 is one coarse cell)
        for gh in (1, d.int(1, 3)):
            for i, k in enumerate(n.kids):
                near_ids = []
                for j, q in enumerate(n.kids):
                    nb = all(max(x[0], y[0]) <= min(x[1], y[1]) for x, y in zip(k.box, q.box))
                    if i != j:
                        eq(d, m[i].isInMyNeighborhood(m[j], gh), nb, w + ' isInMyNeighborhood(%d,%d)' % (i, j))
                        eq(d, m.isPatchInNeighborhoodOf(i, j, gh), nb, w + ' isPatchInNeighborhoodOf')
                        if nb:
                            near_ids.append(j)
                eq(d, sorted(m.getPatchIdsInTheNeighborhoodOf(i, gh)), near_ids, w + ' getPatchIdsInTheNeighborhoodOf')
                eq(d, sorted(L(m.findPatchesInTheNeighborhoodOf(i, gh))), near_ids, w + ' findPatchesInTheNeighborhoodOf')
    for lv in range(maxlev + 1):
        got = root.mesh.retrieveGridsAt(lv)
        eq(d, sorted(x.getMesh().getHiddenCppPointer() for x in got),
           sorted(n.mesh.getHiddenCppPointer() for n in nodes if n.level == lv), 'retrieveGridsAt(%d)' % lv)
    n = d.choice(nodes)
    # meshes
    leaf = []
    for x in n.all():
        cov = set()
        for k in x.kids:
            cov.update(cells(k.box))
        for p in cells([(0, v) for v in x.dims]):
            if p not in cov:
                leaf.append(tuple((root.org[i] + (x.off[i] + p[i] + .5) * root.dxyz[i] / x.fa[i]) for i in range(dim)) +
                            (prod([root.dxyz[i] / x.fa[i] for i in range(dim)]),))
    um = n.mesh.buildUnstructured()
    eq(d, um.getNumberOfCells(), len(leaf), 'buildUnstructured')
    eq(d, um.getNumberOfCells(), n.mesh.getNumberOfCellsRecursiveWithoutOverlap(), 'buildUnstructured count')
    bc = um.computeCellCenterOfMass().getValues()
    ms = [abs(x) for x in L(um.getMeasureField(True).getArray())]
    got = sorted(tuple(round(v, 7) + 0. for v in bc[i * dim:(i + 1) * dim]) + (round(ms[i], 9),) for i in range(len(ms)))
    eq(d, got, sorted(tuple(round(v, 7) + 0. for v in c[:-1]) + (round(c[-1], 9),) for c in leaf), 'buildUnstructured cells')
    if n.kids:
        env = n.mesh.buildMeshFromPatchEnvelop()
        eq(d, env.getNumberOfCells(), len(n.kids), 'buildMeshFromPatchEnvelop')
        h = [root.dxyz[i] / n.fa[i] for i in range(dim)]
        near(d, [abs(x) for x in L(env.getMeasureField(True).getArray())],
             [prod([(b - a) * hh for (a, b), hh in zip(k.box, h)]) for k in n.kids], 'envelop measures', 1e-9)
        ch = n.mesh.buildMeshOfDirectChildrenOnly()
        eq(d, ch.getNumberOfCells(), sum(prod(k.dims) for k in n.kids), 'buildMeshOfDirectChildrenOnly')


@check(n=1000, rule='a patch removed below another patch, or a copy of two levels')
def edit(d):
    """removing patches keeps the others; deep copies are equal and independent"""
    root = make(d, depth=2)
    nodes = root.all()
    withk = [n for n in nodes if n.kids]
    d.assume(bool(withk))
    d.sample(show(root))
    cpy = root.mesh.deepCopy(None)

    def same(n, m, w):
        eq(d, m.getNumberOfPatches(), len(n.kids), w + ' patches at %s' % n.pos(root))
        eq(d, list(m.getImageMesh().getNodeStruct()), [x + 1 for x in n.dims], w + ' structure')
        for i, k in enumerate(n.kids):
            eq(d, [tuple(x) for x in m[i].getBLTRRange()], k.box, w + ' box')
            same(k, m[i].getMesh(), w)
            eq(d, m[i].getMesh().getFather().getHiddenCppPointer(), m.getHiddenCppPointer(), w + ' father')
    same(root, cpy, 'deepCopy')
    n = d.choice(withk)
    i = d.below(len(n.kids))
    d.nontrivial(n.level > 0 or any(k.kids for k in n.kids))
    if d.bool(.3):
        n.mesh.removeAllPatches()
        kids = n.kids
        n.kids = []
    else:
        if d.bool():
            n.mesh.removePatch(i)
        else:
            del n.mesh[i]
        kids = n.kids
        n.kids = [k for j, k in enumerate(n.kids) if j != i]
        for j, k in enumerate(n.kids):
            k.pid = j
    same(root, root.mesh, 'removePatch')
    um = root.mesh.buildUnstructured()
    eq(d, um.getNumberOfCells(), root.mesh.getNumberOfCellsRecursiveWithoutOverlap(), 'after removal')
    n.kids = kids
    for j, k in enumerate(n.kids):
        k.pid = j
    same(root, cpy, 'copy after removal')


def flags(d, dims, kind):
    n = prod(dims)
    pos = cells([(0, x) for x in dims])
    if kind == 'random':
        p = d.choice([0.05, 0.2, 0.5, 0.9])
        return [1 if d.bool(p) else 0 for _ in range(n)]
    if kind == 'boxes':
        f = [0] * n
        for _ in range(d.int(1, 3)):
            b = []
            for x in dims:
                lo = d.below(x)
                b.append((lo, d.int(lo + 1, x)))
            for p in cells(b):
                f[lin(p, dims)] = 1
        return f
    if kind == 'band':
        c = [d.uniform(0, x) for x in dims]
        r = d.uniform(1, max(dims))
        w = d.uniform(.6, 1.5)
        return [1 if abs(sum((p[i] + .5 - c[i]) ** 2 for i in range(len(dims))) ** .5 - r) < w else 0 for p in pos]
    return [1] * n


@check(n=6000, rule='at least two patches created')
def criterion(d):
    """patches created from a criterion cover the flagged cells, do not overlap, respect the limits"""
    dim = d.weighted([(1, 1), (5, 2), (2, 3)])
    dims = [d.int(3, {1: 30, 2: 14, 3: 7}[dim]) for _ in range(dim)]
    f = flags(d, dims, d.weighted([(3, 'random'), (3, 'boxes'), (3, 'band'), (1, 'full')]))
    minl = d.weighted([(2, 1), (2, 2), (1, 3)])
    d.assume(min(dims) >= minl)
    bso = mc.BoxSplittingOptions()
    bso.setMinimumPatchLength(minl)
    goal = d.choice([.5, .5, .3, .8])
    bso.setEfficiencyGoal(goal)
    bso.setEfficiencyThreshold(d.choice([.7, .7, .5, .9]))
    maxl = maxc = 10 ** 9
    if d.bool(.4):
        maxl = d.int(2 * minl + 1, 2 * minl + 6)
        bso.setMaximumPatchLength(maxl)
    if d.bool(.4):
        maxc = d.int((2 * minl + 1) ** dim, 2 * (2 * minl + 1) ** dim)
        bso.setMaximumNbOfCellsInPatch(maxc)
    m = mc.MEDCouplingCartesianAMRMesh('amr', dim, [x + 1 for x in dims], [0.] * dim, [1.] * dim)
    fac = [d.int(1, 3) for _ in dims]
    d.sample('cells %s flagged %d min %d max %s cells %s goal %s' % (dims, sum(f), minl, maxl, maxc, goal))
    if d.bool():
        m.createPatchesFromCriterion(bso, mc.DataArrayByte(f), fac)
    else:
        m.createPatchesFromCriterion(bso, mc.DataArrayDouble([1. - 1e-9 if x else d.choice([0., 5e-4]) for x in f]), fac, 1e-3)
    boxes = [[tuple(x) for x in m[i].getBLTRRange()] for i in range(len(m))]
    d.nontrivial(len(boxes) > 1)
    seen = {}
    for i, b in enumerate(boxes):
        for (lo, hi), x in zip(b, dims):
            d.check(0 <= lo < hi <= x, 'box %s out of the mesh %s' % (b, dims))
        cs = cells(b)
        eff = 0
        for p in cs:
            d.check(p not in seen, 'cell %s in patches %s and %s' % (p, boxes[seen.get(p, 0)], b))
            seen[p] = i
            eff += f[lin(p, dims)]
        d.check(eff > 0, 'patch %s has no flagged cell' % (b,))
        lens = [h - l for l, h in b]
        d.check(min(lens) >= minl, 'patch %s smaller than the minimum length %d' % (b, minl))
        eff /= float(len(cs))
        if eff > goal or max(lens) >= 2 * minl:
            d.check(eff > goal, 'patch %s of efficiency %s (goal %s) could be cut' % (b, eff, goal))
            d.check(max(lens) <= maxl, 'patch %s longer than %d' % (b, maxl))
            d.check(len(cs) <= maxc, 'patch %s bigger than %d cells' % (b, maxc))
        near(d, list(m[i].getMesh().getImageMesh().getDXYZ()), [1. / x for x in fac], 'factors of the patch', 1e-12)
    miss = [p for p in cells([(0, x) for x in dims]) if f[lin(p, dims)] and p not in seen]
    d.check(not miss, 'flagged cells not covered: %s' % miss[:5])


def field_of(d, n, g, nc):
    return [tuple(float(d.sint(40)) for _ in range(nc)) for _ in range(prod(ghosted(n.dims, g)))]


def darr(vals):
    return mc.DataArrayDouble([x for t in vals for x in t], len(vals), len(vals[0]))


@check(n=3000, rule='refinement factors of at least two and ghosts')
def transfers(d):
    """values given to a patch and taken from a patch"""
    g = d.int(0, 2)
    root = make(d, minfac=max(1, g), depth=d.int(1, 2))
    cand = [n for n in root.all() if n.kids]
    d.assume(bool(cand))
    n = d.choice(cand)
    k = d.choice(n.kids)
    nc = d.int(1, 2)
    cons = d.bool()
    fac = prod(n.fac)
    d.nontrivial(fac >= 2 and g > 0)
    d.sample('%s ghost %d conservative %s' % (show(root), g, cons))
    m, pid = n.mesh, k.pid
    div = fac if cons else 1
    C0, F0 = field_of(d, n, 0, nc), field_of(d, k, 0, nc)

    def coarse(p):
        return [b[0] + x // q for x, b, q in zip(p, k.box, n.fac)]
    kpos = cells([(0, x) for x in k.dims])
    c, f = darr(C0), darr(F0)
    m.fillCellFieldOnPatch(pid, c, f, cons)
    near(d, [x for t in T(f) for x in t], [x / div for p in kpos for x in C0[lin(coarse(p), n.dims)]],
         'fillCellFieldOnPatch', 1e-12)
    eq(d, T(c), C0, 'the coarse field')
    f = m.createCellFieldOnPatch(pid, c)
    near(d, [x for t in T(f) for x in t], [x for p in kpos for x in C0[lin(coarse(p), n.dims)]],
         'createCellFieldOnPatch', 1e-12)
    c, f = darr(C0), darr(F0)
    m.fillCellFieldComingFromPatch(pid, f, c, cons)
    want = [list(t) for t in C0]
    for p in cells(k.box):
        want[lin(p, n.dims)] = [0.] * nc
    for i, p in enumerate(kpos):
        for j in range(nc):
            want[lin(coarse(p), n.dims)][j] += F0[i][j] / (1 if cons else fac)
    near(d, [x for t in T(c) for x in t], [x for t in want for x in t], 'fillCellFieldComingFromPatch', 1e-12)
    eq(d, T(f), F0, 'the fine field')
    # ghosts
    Cg, Fg = field_of(d, n, g, nc), field_of(d, k, g, nc)
    gn, gk = ghosted(n.dims, g), ghosted(k.dims, g)
    gpos = cells([(-g, x + g) for x in k.dims])

    def spread(p):
        return Cg[lin([x + g for x in coarse(p)], gn)]

    def inside(p):
        return all(0 <= x < y for x, y in zip(p, k.dims))
    c, f = darr(Cg), darr(Fg)
    m.fillCellFieldComingFromPatchGhost(pid, f, c, g, cons)
    want = [list(t) for t in Cg]
    for p in cells(k.box):
        want[lin([x + g for x in p], gn)] = [0.] * nc
    for p in kpos:
        for j in range(nc):
            want[lin([x + g for x in coarse(p)], gn)][j] += Fg[lin([x + g for x in p], gk)][j] / (1 if cons else fac)
    near(d, [x for t in T(c) for x in t], [x for t in want for x in t], 'fillCellFieldComingFromPatchGhost', 1e-12)
    eq(d, T(m.extractGhostFrom(g, c)), [T(c)[lin([x + g for x in p], gn)] for p in cells([(0, x) for x in n.dims])],
       'extractGhostFrom')
    c, f = darr(Cg), darr(Fg)
    m.fillCellFieldOnPatchGhost(pid, c, f, g, cons)
    near(d, [x for t in T(f) for x in t], [x / div for p in gpos for x in spread(p)], 'fillCellFieldOnPatchGhost', 1e-12)
    if g:
        c, f = darr(Cg), darr(Fg)
        m.fillCellFieldOnPatchOnlyOnGhostZone(pid, c, f, g)
        eq(d, T(f), [Fg[i] if inside(p) else tuple(spread(p)) for i, p in enumerate(gpos)],
           'fillCellFieldOnPatchOnlyOnGhostZone')
        # neighbours
        allf = [field_of(d, q, g, nc) for q in n.kids]

        def neigh(i, p, only=None):
            a = [x + o for x, o in zip(p, k.off)]
            for j, q in enumerate(n.kids):
                if q is k or (only is not None and q is not only):
                    continue
                r = [x - o for x, o in zip(a, q.off)]
                if all(0 <= x < y for x, y in zip(r, q.dims)):
                    return allf[j][lin([x + g for x in r], ghosted(q.dims, g))]
            return None
        arrs = [darr(x) for x in allf]
        m.fillCellFieldOnPatchOnlyGhostAdv(pid, g, arrs)
        mine = allf[pid]
        eq(d, T(arrs[pid]), [mine[i] if inside(p) else (neigh(i, p) or mine[i]) for i, p in enumerate(gpos)],
           'fillCellFieldOnPatchOnlyGhostAdv')
        arrs = [darr(x) for x in allf]
        m.fillCellFieldOnPatchGhostAdv(pid, darr(Cg), g, arrs, cons)
        want = []
        for i, p in enumerate(gpos):
            v = None if inside(p) else neigh(i, p)
            want += [x for x in v] if v is not None else [x / div for x in spread(p)]
        near(d, [x for t in T(arrs[pid]) for x in t], want, 'fillCellFieldOnPatchGhostAdv', 1e-12)
        for j, q in enumerate(n.kids):
            if q is not k:
                eq(d, T(arrs[j]), allf[j], 'another patch')
        nbs = [q for q in n.kids if q is not k and all(max(x[0], y[0]) <= min(x[1], y[1]) for x, y in zip(k.box, q.box))]
        if nbs:
            q = d.choice(nbs)
            f = darr(mine)
            m.fillCellFieldOnPatchOnlyOnGhostZoneWith(g, m[pid], m[q.pid], f, darr(allf[q.pid]))
            eq(d, T(f), [mine[i] if inside(p) else (neigh(i, p, q) or mine[i]) for i, p in enumerate(gpos)],
               'fillCellFieldOnPatchOnlyOnGhostZoneWith')


class Att(object):
    """model of an attribute: one list of tuples with ghosts per mesh"""

    def __init__(self, root, g, val):
        self.root, self.g, self.nodes = root, g, root.all()
        self.v = {id(n): val(n) for n in self.nodes}

    def idx(self, n, p):
        return lin([x + self.g for x in p], ghosted(n.dims, self.g))

    def get(self, n, p):
        return self.v[id(n)][self.idx(n, p)]

    def level(self, l):
        return [n for n in self.nodes if n.level == l]

    def coarse(self, k, p):
        return [b[0] + x // q for x, b, q in zip(p, k.box, k.father.fac)]

    def f2c(self, l, cons):
        for k in self.level(l):
            n = k.father
            fac = prod(n.fac)
            acc = {}
            for p in cells([(0, x) for x in k.dims]):
                c = tuple(self.coarse(k, p))
                o = acc.get(c)
                v = self.get(k, p)
                acc[c] = v if o is None else tuple(a + b for a, b in zip(o, v))
            for c, v in acc.items():
                self.v[id(n)][self.idx(n, c)] = v if cons else tuple(x / fac for x in v)

    def c2f(self, l, cons):
        for k in self.level(l + 1):
            n = k.father
            fac = prod(n.fac) if cons else 1
            self.v[id(k)] = [tuple(x / fac for x in self.get(n, self.coarse(k, p)))
                             for p in cells([(-self.g, x + self.g) for x in k.dims])]

    def owner(self, l, a):
        """mesh of level l whose interior contains the cell of absolute indices a"""
        for n in self.level(l):
            p = [x - o for x, o in zip(a, n.off)]
            if all(0 <= x < y for x, y in zip(p, n.dims)):
                return n, p
        return None

    def ghost_pos(self, n):
        for p in cells([(-self.g, x + self.g) for x in n.dims]):
            if not all(0 <= x < y for x, y in zip(p, n.dims)):
                yield p

    def father_ghosts(self, l):
        for k in self.level(l):
            for p in self.ghost_pos(k):
                self.v[id(k)][self.idx(k, p)] = self.get(k.father, self.coarse(k, p))

    def same_level_ghosts(self, l, father=None):
        for k in self.level(l):
            if father is not None and k.father is not father:
                continue
            for p in self.ghost_pos(k):
                o = self.owner(l, [x + y for x, y in zip(p, k.off)])
                if o and (father is None or o[0].father is father):
                    self.v[id(k)][self.idx(k, p)] = self.get(*o)

    def all_ghosts(self):
        """value of the patch of the same level which contains the cell; if none, of the finest ancestor, or patch beside an
        ancestor, which contains it; the ghosts of the root at the end"""
        root = self.root
        for l in range(1, max(n.level for n in self.nodes) + 1):
            for k in self.level(l):
                anc, q = [], k
                while q.father:
                    q = q.father
                    anc.append(q)
                for p in self.ghost_pos(k):
                    a = [x + y for x, y in zip(p, k.off)]
                    for s in range(l, -1, -1):
                        fs = self.level(s)
                        ratio = [x // y for x, y in zip(k.fa, fs[0].fa)]
                        o = self.owner(s, [x // r for x, r in zip(a, ratio)])
                        if o and (s == l or s == 0 or o[0].father in anc):
                            break
                    else:
                        o = (root, [x // r for x, r in zip(a, k.fa)])
                    self.v[id(k)][self.idx(k, p)] = self.get(*o)


def attribute(d, root, g, nc):
    att = mc.MEDCouplingAMRAttribute(root.mesh, [('F', nc), ('G', 1)], g)
    att.alloc()
    return att


def put(att, mod, name='F'):
    for n in mod.nodes:
        a = att.getFieldOn(n.mesh, name)
        eq_n = a.getNumberOfTuples()
        assert eq_n == len(mod.v[id(n)]), 'number of tuples'
        a[:] = darr(mod.v[id(n)])


def cmp_att(d, att, mod, what, name='F'):
    for n in mod.nodes:
        near(d, [x for t in T(att.getFieldOn(n.mesh, name)) for x in t], [x for t in mod.v[id(n)] for x in t],
             '%s: field on %s' % (what, n.pos(mod.root)), 1e-11, 40.)


@check(n=3000, rule='three levels, or several patches at the same level')
def attributes(d):
    """histories of synchronisations of an attribute follow the model"""
    g = d.int(0, 2)
    root = make(d, minfac=max(1, g), depth=d.int(1, 3), maxn=3)
    nodes = root.all()
    top = max(n.level for n in nodes)
    d.assume(top >= 1)
    d.nontrivial(top >= 2 or len([n for n in nodes if n.level == 1]) > 1)
    nc = d.int(1, 2)
    cons = d.bool(.4)
    const = d.bool(.25)
    att = attribute(d, root, g, nc)
    eq(d, att.getNumberOfLevels(), top + 1, 'getNumberOfLevels')
    nat = d.choice(['IntensiveConservation', 'ExtensiveConservation'] if cons else ['IntensiveMaximum', 'ExtensiveMaximum'])
    att.spillNatures([getattr(mc, nat), mc.IntensiveMaximum])
    infos = [['c%d' % i for i in range(nc)], ['x']]
    att.spillInfoOnComponents(infos)
    v = tuple(float(d.sint(9)) for _ in range(nc))
    mod = Att(root, g, (lambda n: [v] * prod(ghosted(n.dims, g))) if const else (lambda n: field_of(d, n, g, nc)))
    put(att, mod)
    cmp_att(d, att, mod, 'after filling')
    hist = []
    for _ in range(d.int(1, 5)):
        ops = ['f2c', 'c2f', 'f2cb', 'c2fb', 'copy']
        if not cons:
            ops += ['all', 'lev', 'levf', 'kids'] if g else []
        op = d.choice(ops)
        hist.append(op)
        if op == 'f2c':
            att.synchronizeFineToCoarse()
            for l in range(top, 0, -1):
                mod.f2c(l, cons)
        elif op == 'c2f':
            att.synchronizeCoarseToFine()
            for l in range(top):
                mod.c2f(l, cons)
        elif op == 'f2cb':
            a = d.int(0, top)
            b = d.int(0, a)
            att.synchronizeFineToCoarseBetween(a, b)
            for l in range(a, b, -1):
                mod.f2c(l, cons)
        elif op == 'c2fb':
            a = d.int(0, top)
            b = d.int(a, top)
            att.synchronizeCoarseToFineBetween(a, b)
            for l in range(a, b):
                mod.c2f(l, cons)
        elif op == 'all':
            att.synchronizeAllGhostZones()
            mod.all_ghosts()
        elif op == 'lev':
            l = d.int(0, top)
            att.synchronizeAllGhostZonesAtASpecifiedLevel(l)
            if l:
                mod.same_level_ghosts(l)
        elif op == 'levf':
            l = d.int(1, top)
            att.synchronizeAllGhostZonesAtASpecifiedLevelUsingOnlyFather(l)
            mod.father_ghosts(l)
        elif op == 'kids':
            n = d.choice([x for x in nodes if x.level < top])
            att.synchronizeAllGhostZonesOfDirectChidrenOf(n.mesh)
            mod.same_level_ghosts(n.level + 1, n)
        elif op == 'copy':
            att2 = att.deepCpyWithoutGodFather()
            for n in nodes:
                att.getFieldOn(n.mesh, 'F').fillWithValue(-77.)
            att = att2
        d.sample('%s ghost %d nature %s %s' % (show(root), g, nat, hist))
        cmp_att(d, att, mod, 'after %s' % hist)
    for n in nodes:
        a = att.getFieldOn(n.mesh, 'F')
        eq(d, list(a.getInfoOnComponents()), infos[0], 'component infos')
        if const and not cons:
            d.check(all(t == v for t in T(a)), 'constant field changed by %s' % hist)
    # restitution
    n = d.choice(nodes)
    f = att.buildCellFieldOnWithoutGhost(n.mesh, 'F')
    f.checkConsistencyLight()
    near(d, [x for t in T(f.getArray()) for x in t], [x for p in cells([(0, y) for y in n.dims]) for x in mod.get(n, p)],
         'buildCellFieldOnWithoutGhost', 1e-11, 40.)
    f = att.buildCellFieldOnWithGhost(n.mesh, 'F')
    f.checkConsistencyLight()
    near(d, [x for t in T(f.getArray()) for x in t], [x for t in mod.v[id(n)] for x in t], 'buildCellFieldOnWithGhost', 1e-11, 40.)
    f = att.buildCellFieldOnRecurseWithoutOverlapWithoutGhost(n.mesh, 'F')
    f.checkConsistencyLight()
    want = {}
    for x in n.all():
        cov = set()
        for k in x.kids:
            cov.update(cells(k.box))
        for p in cells([(0, y) for y in x.dims]):
            if p not in cov:
                key = tuple(round(root.org[i] + (x.off[i] + p[i] + .5) * root.dxyz[i] / x.fa[i], 7) + 0. for i in range(root.dim))
                want[key] = mod.get(x, p)
    bc = T(f.getMesh().computeCellCenterOfMass())
    eq(d, len(bc), len(want), 'number of cells of the composite field')
    for c, t in zip(bc, T(f.getArray())):
        key = tuple(round(x, 7) + 0. for x in (c if isinstance(c, (tuple, list)) else (c,)))
        d.check(key in want, 'unexpected cell at %s' % (key,))
        near(d, list(t), list(want[key]), 'composite field at %s' % (key,), 1e-11, 40.)


@check(n=500, rule='patches at two levels')
def totals(d):
    """coarse to fine keeps the total of an extensive field on the finest cells; fine to coarse then keeps it"""
    root = make(d, depth=d.int(1, 3))
    nodes = root.all()
    top = max(n.level for n in nodes)
    d.assume(top >= 1)
    d.nontrivial(top >= 2)
    d.sample(show(root))
    att = mc.MEDCouplingAMRAttribute(root.mesh, ['F'], 0) if 0 else mc.MEDCouplingAMRAttribute(root.mesh, [('F', 1)], 0)
    att.alloc()
    att.spillNatures([mc.ExtensiveConservation])
    a = att.getFieldOn(root.mesh, 'F')
    a[:] = darr([(float(d.sint(50)),) for _ in range(prod(root.dims))])
    tot = a.accumulate()[0]
    att.synchronizeCoarseToFine()
    f = att.buildCellFieldOnRecurseWithoutOverlapWithoutGhost(root.mesh, 'F')
    near(d, [f.accumulate()[0]], [tot], 'total on the finest cells', 1e-9, 50. * prod(root.dims))
    for n in nodes:
        x = att.getFieldOn(n.mesh, 'F')
        if not n.kids:
            x[:] = darr([(float(d.sint(50)),) for _ in range(prod(n.dims))])
    f = att.buildCellFieldOnRecurseWithoutOverlapWithoutGhost(root.mesh, 'F')
    tot = f.accumulate()[0]
    att.synchronizeFineToCoarse()
    near(d, [att.getFieldOn(root.mesh, 'F').accumulate()[0]], [tot], 'total on the root', 1e-9, 5e4)
    f = att.buildCellFieldOnRecurseWithoutOverlapWithoutGhost(root.mesh, 'F')
    near(d, [f.accumulate()[0]], [tot], 'total after fine to coarse', 1e-9, 5e4)
