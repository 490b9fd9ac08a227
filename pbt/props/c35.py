"""C35 cell quality: edge ratio, aspect ratio, warp, skew and diameter against their published definitions, metamorphic invariances, refused types."""
from common import *
from ref import *
import gen

ASSUMPTIONS = ['cells are not degenerate: edges and heights stay above the absolute thresholds (1e-15 on squared lengths) of the implementation',
               'the sign of the skew depends on the node a quadrangle starts from (published formula), hence only |skew| is compared when the start node changes']

OPS = {'edge': 'getEdgeRatioField', 'aspect': 'getAspectRatioField', 'warp': 'getWarpField', 'skew': 'getSkewField', 'diam': 'computeDiameterField'}
NAMES = {'edge': 'EdgeRatio', 'aspect': 'AspectRatio', 'warp': 'Warp', 'skew': 'Skew', 'diam': 'Diameter'}
NVERT = {TRI3: 3, QUAD4: 4, TRI6: 3, TRI7: 3, QUAD8: 4, QUAD9: 4, TETRA4: 4, TETRA10: 4, HEXA8: 8, HEXA20: 8, HEXA27: 8, PENTA6: 6, PENTA15: 6, PYRA5: 5, PYRA13: 5}
SUPPORTED = {'edge': (TRI3, QUAD4, TETRA4), 'aspect': (TRI3, QUAD4, TETRA4), 'warp': (QUAD4,), 'skew': (QUAD4,), 'diam': tuple(NVERT)}


def p3(p):
    return tuple(p) + (0.,) * (3 - len(p))


def unit(v):
    return mul(v, 1. / norm(v))


def quality(op, t, P):
    """published definition, P: 3D vertices"""
    n = len(P)
    if op == 'diam':
        P = P[:NVERT[t]]
        return max(norm(sub(a, b)) for i, a in enumerate(P) for b in P[:i])
    if t in (TRI3, QUAD4):
        e = [norm(sub(P[(i + 1) % n], P[i])) for i in range(n)]
    else:
        e = [norm(sub(a, b)) for i, a in enumerate(P) for b in P[:i]]
    if op == 'edge':
        return max(e) / min(e)
    if op == 'aspect':
        if t == TRI3:
            return max(e) * sum(e) / (4 * math.sqrt(3) * .5 * norm(cross(sub(P[1], P[0]), sub(P[2], P[0]))))
        if t == QUAD4:
            A = .5 * (norm(cross(sub(P[1], P[0]), sub(P[2], P[1]))) + norm(cross(sub(P[3], P[2]), sub(P[0], P[3]))))
            return max(e) * sum(e) / (4 * A)
        S = sum(.5 * norm(cross(sub(P[b], P[a]), sub(P[c], P[a]))) for a, b, c in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)))
        V = abs(dot(sub(P[1], P[0]), cross(sub(P[2], P[0]), sub(P[3], P[0])))) / 6
        r = 3 * V / S
        return max(e) / (2 * math.sqrt(6) * r)
    if op == 'warp':
        E = [sub(P[(i + 1) % 4], P[i]) for i in range(4)]
        N = [unit(cross(E[i - 1], E[i])) for i in range(4)]
        return min(dot(N[0], N[2]), dot(N[1], N[3])) ** 3
    a, b, c, e = P
    u, v = add(sub(b, a), sub(c, e)), add(sub(c, a), sub(e, b))
    return dot(unit(u), unit(v))


def fat(t, P):
    """away from degenerate shapes, so that the definition is well conditioned"""
    n = NVERT[t]
    P = [p3(p) for p in P[:n]]
    if min(norm(sub(a, b)) for i, a in enumerate(P) for b in P[:i]) < .2:
        return False
    if n == 3 or t == QUAD4:
        N = [cross(sub(P[i], P[i - 1]), sub(P[(i + 1) % n], P[i])) for i in range(n)]
        if min(norm(x) for x in N) < .05:
            return False
        if n == 4:
            return norm(add(sub(P[1], P[0]), sub(P[2], P[3]))) > .1 and norm(add(sub(P[2], P[0]), sub(P[3], P[1]))) > .1
    if t == TETRA4:
        return abs(dot(sub(P[1], P[0]), cross(sub(P[2], P[0]), sub(P[3], P[0])))) > .1
    return True


def soup(d, types, sd):
    """independent random cells of the given types"""
    xyz, cells = [], []
    share = d.bool(.4)
    for _ in range(d.size(6, 1)):
        t = d.choice(types)
        n = NN[t]
        for _ in range(6):
            ids, pts = [], []
            for k in range(n):
                if share and xyz and d.bool(.3):
                    i = d.below(len(xyz))
                    if i not in ids:
                        ids.append(i)
                        pts.append(xyz[i])
                        continue
                pts.append(tuple(d.sint(16) / 4 for _ in range(sd)))
                ids.append(None)
            if fat(t, pts):
                break
        else:
            continue
        c = []
        for i, p in zip(ids, pts):
            if i is None:
                i = len(xyz)
                xyz.append(p)
            c.append(i)
        cells.append((t, c))
    d.assume(cells)
    return PM(sd, 2 if types[0] in (TRI3, QUAD4, TRI6, TRI7, QUAD8, QUAD9) else 3, xyz, cells, 'soup')


def measure(m, op):
    f = getattr(m, OPS[op])()
    return f, L(f.getArray())


def pick(d, op):
    """random soup on the supported types of an operation"""
    if op in ('warp', 'skew'):
        return soup(d, [QUAD4], 3)
    two = d.bool()
    pool = [t for t in SUPPORTED[op] if (t in (TRI3, QUAD4, TRI6, TRI7, QUAD8, QUAD9)) == two]
    pool = [d.choice(pool) for _ in range(d.int(1, 4))]
    return soup(d, pool, d.int(2, 3) if two else 3)


@check(n=40000, rule='two cells at least')
def definition(d):
    """value of each indicator on random cells"""
    op = d.choice(list(OPS))
    pm = pick(d, op)
    d.nontrivial(pm.nc > 1)
    d.label(op, *sorted({MED_NAMES[gen.ORDER.index(t)] for t, c in pm.cells}))
    d.sample('%s %r' % (op, pm))
    m = to_mc(pm)
    t = d.choice([(0., -1, -1), (2.5, 3, 4)])
    m.setTime(*t)
    f, got = measure(m, op)
    want = [quality(op, t, [p3(pm.xyz[v]) for v in c]) for t, c in pm.cells]
    near(d, got, want, op, 1e-10, 0 if op not in ('warp', 'skew') else 1.)
    eq(d, f.getName(), NAMES[op], 'name')
    eq(d, (f.getTypeOfField(), f.getMesh().getHiddenCppPointer()), (mc.ON_CELLS, m.getHiddenCppPointer()), 'support')
    if op != 'diam':
        eq(d, tuple(f.getTime()), t, 'time')
    f.checkConsistencyLight()
    eq(d, cellgeo(from_mc(m)), cellgeo(pm), 'mesh unchanged')
    if op == 'diam' and len({t for t, c in pm.cells}) == 1:
        s = mc.MEDCoupling1SGTUMesh(m)
        near(d, L(s.computeDiameterField().getArray()), want, 'diameter of the single type mesh', 1e-12)


@check(n=25000, rule='a similarity other than identity')
def invariance(d):
    """translation, rotation, reflection, scaling, renumbering of cells and nodes, start node"""
    op = d.choice(list(OPS))
    pm = pick(d, op)
    d.label(op)
    base = measure(to_mc(pm), op)[1]
    q, k = pm, 1.
    what = d.choice(['translate', 'rotate', 'scale', 'all', 'cells', 'nodes', 'start'])
    d.nontrivial()
    d.label(what)
    d.sample('%s %s %r' % (op, what, pm))
    perm = list(range(pm.nc))
    xyz = [p3(p) for p in pm.xyz]
    sd = pm.sd
    if what in ('rotate', 'all'):
        R = gen.rotation3(d)
        xyz = [apply(R, p) for p in xyz]
        if sd == 2 and d.bool():
            sd = 3
        elif sd == 2:
            a = d.uniform(0, 6.28)
            xyz = [(math.cos(a) * p[0] - math.sin(a) * p[1], math.sin(a) * p[0] + math.cos(a) * p[1], 0.) for p in map(p3, pm.xyz)]
    if what in ('scale', 'all'):
        k = d.choice([1e-4, .001, .37, 5., 1e3, 1e6])
        xyz = [mul(p, k) for p in xyz]
    if what in ('translate', 'all'):
        t = tuple(d.sint(400) / 4 * k for _ in range(3))
        xyz = [add(p, t) for p in xyz]
    cells = pm.cells
    if what in ('cells', 'all'):
        perm = d.perm(pm.nc)
        cells = [cells[i] for i in perm]
    if what in ('nodes', 'all'):
        np_ = d.perm(len(xyz))
        x2 = [None] * len(xyz)
        for i, j in enumerate(np_):
            x2[j] = xyz[i]
        xyz, cells = x2, [(t, [np_[v] for v in c]) for t, c in cells]
    if what == 'start':
        c2 = []
        for t, c in cells:
            if t in (TRI3, QUAD4):
                s = d.below(len(c))
                c = c[s:] + c[:s]
                if d.bool():
                    c = c[::-1]
            elif t == TETRA4:
                c = [c[i] for i in d.perm(4)]
            c2.append((t, c))
        cells = c2
    q = PM(sd, pm.md, [p[:sd] for p in xyz], cells, 'q')
    got = measure(to_mc(q), op)[1]
    want = [base[i] * (k if op == 'diam' else 1.) for i in perm]
    if what == 'start' and op == 'skew':
        got, want = [abs(x) for x in got], [abs(x) for x in want]
    if what == 'start' and op == 'aspect':
        # on a non planar or concave quadrangle the area is that of the two triangles of one diagonal
        sel = [i for i, (t, c) in enumerate(cells) if t != QUAD4]
        got, want = [got[i] for i in sel], [want[i] for i in sel]
    near(d, got, want, op + ' under ' + what, 1e-8, k if op == 'diam' else 1.)


def apply(R, p):
    return tuple(dot(r, p) for r in R)


@check(n=6000, rule='always')
def optimum(d):
    """regular elements reach the documented optimum and no shape of the family goes beyond it"""
    R, t, k = gen.rotation3(d), tuple(d.sint(40) / 4 for _ in range(3)), d.choice([.01, 1., 30.])
    s3 = math.sqrt(3)
    tri = [(0, 0, 0), (1, 0, 0), (.5, s3 / 2, 0)]
    shapes = {'tri': (TRI3, tri), 'square': (QUAD4, [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)]),
              'tet': (TETRA4, [(0, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1)]),
              'rect': (QUAD4, [(0, 0, 0), (3, 0, 0), (3, 1, 0), (0, 1, 0)])}
    d.nontrivial()
    s = d.choice(list(shapes))
    typ, P = shapes[s]
    d.label(s)
    d.sample('%s x%g' % (s, k))
    pm = PM(3, 3 if s == 'tet' else 2, [add(mul(apply(R, p), k), t) for p in P], [(typ, list(range(len(P))))], 's')
    m = to_mc(pm)
    if s != 'rect':
        near(d, measure(m, 'edge')[1], [1.], 'edge ratio', 1e-9)
        near(d, measure(m, 'aspect')[1], [1.], 'aspect ratio', 1e-9)
    if s in ('square', 'rect'):
        near(d, measure(m, 'warp')[1], [1.], 'warp', 1e-9)
        near(d, measure(m, 'skew')[1], [0.], 'skew', 1e-9)
    # bounds on perturbed shapes
    Q = [tuple(x + d.sint(12) / 32 for x in p) for p in P]
    d.assume(fat(typ, Q))
    q = to_mc(PM(3, pm.md, Q, pm.cells, 's'))
    for op in ('edge', 'aspect'):
        v = measure(q, op)[1][0]
        d.check(v >= 1 - 1e-9, '%s below the optimum: %r' % (op, v))
    if typ == QUAD4:
        d.check(-1 - 1e-9 <= measure(q, 'warp')[1][0] <= 1 + 1e-9 and -1 - 1e-9 <= measure(q, 'skew')[1][0] <= 1 + 1e-9, 'warp or skew out of [-1,1]')


@check(n=10000, rule='an unsupported cell type hidden among supported ones')
def refused(d):
    """unsupported cell types and dimensions raise and leave the mesh as it was"""
    op = d.choice(list(OPS))
    dimcase = d.bool(.25)
    if dimcase:
        md, sd = d.choice([(0, 2), (1, 1), (1, 2), (1, 3), (2, 2), (3, 3)])
        pm = gen.random_topo(d, md, sd, empty=False)
        ok = all(t in SUPPORTED[op] for t, c in pm.cells)
        if op in ('edge', 'aspect'):
            ok = ok and md >= 2
        elif op != 'diam':
            ok = False
        d.assume(not ok)
    else:
        md = d.choice([2, 3]) if op not in ('warp', 'skew') else 2
        good = pick_dim(d, op, md)
        bad = [t for t in TYPES_BY_DIM[md] if t not in SUPPORTED[op]]
        pm = gen.random_topo(d, md, 3, types=[d.choice(bad)], ncmax=2, empty=False)
        off = pm.nn
        pm = PM(3, md, pm.xyz + [p3(p) for p in good.xyz], pm.cells + [(t, [v + off for v in c]) for t, c in good.cells], 'x')
        pm = PM(3, md, pm.xyz, [pm.cells[i] for i in d.perm(pm.nc)], 'x')
    d.nontrivial(not dimcase)
    d.label(op)
    d.sample('%s %r' % (op, pm))
    m = to_mc(pm)
    d.check(raises(lambda: measure(m, op)), '%s accepted types %r (mesh %d, space %d)' % (op, sorted({t for t, c in pm.cells}), pm.md, pm.sd))
    eq(d, cellgeo(from_mc(m)), cellgeo(pm), 'mesh after the refusal')
    d.check(raises(lambda: getattr(mc.MEDCouplingUMesh(), OPS[op])()), 'an empty mesh object is refused')


def pick_dim(d, op, md):
    pool = [t for t in SUPPORTED[op] if (t in (TRI3, QUAD4, TRI6, TRI7, QUAD8, QUAD9)) == (md == 2)]
    return soup(d, [d.choice(pool) for _ in range(2)], 3)
