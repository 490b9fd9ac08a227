"""Helpers shared by the interpolation checks."""
from common import *
from ref import *
import gen


def remap(d, src, trg, meth='P0P0', **opt):
    r = mc.MEDCouplingRemapper()
    if 'itype' in opt:
        r.setIntersectionType({'Triangulation': mc.Triangulation, 'Convex': mc.Convex, 'Geometric2D': mc.Geometric2D, 'PointLocator': mc.PointLocator, 'Barycentric': mc.Barycentric, 'BarycentricGeo2D': mc.BarycentricGeo2D, 'MappedBarycentric': mc.MappedBarycentric}[opt['itype']])
    if 'split' in opt:
        r.setSplittingPolicy(opt['split'])
    if 'orient' in opt:
        r.setOrientation(opt['orient'])
    for k, v in opt.get('set', []):
        getattr(r, k)(v)
    r.prepare(src, trg, meth)
    return r


def place(d, pm, ref_box, rot=True):
    """second mesh: random similarity so that it overlaps the first"""
    sd = pm.sd
    b = bbox(pm.xyz)
    k = d.below(4)
    d.label('place%d' % k)
    if k == 0:
        return pm.xyz                       # same dyadic lattice
    if k == 1:                              # dyadic shift: many aligned edges
        t = [d.sint(16) / 16 for _ in range(sd)]
        return [tuple(x + y for x, y in zip(p, t)) for p in pm.xyz]
    c = [(l + h) / 2 for l, h in b]
    c2 = [l + (h - l) * d.uniform(0, 1) for l, h in ref_box]
    s = d.choice([.5, 1., 1.5, 2.])
    if sd == 1:
        R = [[1.]]
    elif sd == 2:
        a = d.choice([0., math.pi / 2, math.pi / 4, d.uniform(0, 7)])
        R = [[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]
    else:
        R = gen.rotation3(d) if d.bool(.7) else [[1., 0, 0], [0, 1., 0], [0, 0, 1.]]
    return [tuple(s * dot(R[i], sub(p, c)) + c2[i] for i in range(sd)) for p in pm.xyz]


def transposed(M, ns):
    R = [{} for _ in range(ns)]
    for i, r in enumerate(M):
        for j, v in r.items():
            R[j][i] = v
    return R
