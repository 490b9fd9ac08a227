"""Shared imports and conversions between library objects and the reference model."""
import math, sys
import numpy as np
import medcoupling as mc
from medcoupling import InterpKernelException
from engine import check, Violation, Discard
import ref
from ref import PM

IDT = np.int64


def I(v, nc=1):
    """DataArrayIdType from a list"""
    a = mc.DataArrayInt64(list(map(int, v)) if len(v) else [], len(v) // nc, nc) if len(v) else mc.DataArrayInt64(0, nc)
    return a


def Dbl(rows, nc):
    """DataArrayDouble from a list of tuples"""
    a = mc.DataArrayDouble(len(rows), nc)
    for i, r in enumerate(rows):
        for j in range(nc):
            a.setIJ(i, j, float(r[j]))
    return a


def dbl_np(arr):
    arr = np.ascontiguousarray(arr, dtype=float)
    if arr.ndim == 1:
        arr = arr.reshape(-1, 1)
    a = mc.DataArrayDouble(arr.shape[0], arr.shape[1])
    if arr.size:
        a.setValues([float(x) for x in arr.ravel()], arr.shape[0], arr.shape[1])
    return a


def L(a):
    """flat values of an array"""
    return a.getValues()


def T(a):
    """list of tuples"""
    v = a.getValues()
    n = a.getNumberOfComponents()
    return [tuple(v[i * n:(i + 1) * n]) for i in range(a.getNumberOfTuples())]


def packs(v, idx):
    v, idx = L(v), L(idx)
    return [v[a:b] for a, b in zip(idx, idx[1:])]


def to_mc(pm, name=None):
    m = mc.MEDCouplingUMesh(pm.name if name is None else name, pm.md)
    if pm.nn:
        m.setCoords(mc.DataArrayDouble([v for p in pm.xyz for v in p], pm.nn, pm.sd))
    else:
        m.setCoords(mc.DataArrayDouble(0, pm.sd))
    c, ci = [], [0]
    for t, k in pm.cells:
        c.append(t)
        c += k
        ci.append(len(c))
    m.setConnectivity(I(c), I(ci), True)
    return m


def from_mc(m):
    xyz = T(m.getCoords())
    c, ci = L(m.getNodalConnectivity()), L(m.getNodalConnectivityIndex())
    cells = [(c[a], c[a + 1:b]) for a, b in zip(ci, ci[1:])]
    return PM(m.getSpaceDimension(), m.getMeshDimension(), xyz, cells, m.getName())


def raises(fn, exc=InterpKernelException):
    try:
        fn()
    except exc:
        return True
    return False


def close(a, b, eps=1e-10, scale=1.):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return (math.isnan(a) and math.isnan(b)) or a == b
    return abs(a - b) <= eps * max(abs(scale), abs(a), abs(b))


def all_close(a, b, eps=1e-10, scale=1.):
    return len(a) == len(b) and all(close(x, y, eps, scale) for x, y in zip(a, b))


def eq(d, got, want, what):
    if got != want:
        d.fail('%s: got %s, expected %s' % (what, short(got), short(want)))


def near(d, got, want, what, eps=1e-10, scale=1.):
    if len(got) != len(want):
        d.fail('%s: got %d values, expected %d: %s / %s' % (what, len(got), len(want), short(got), short(want)))
    for i, (x, y) in enumerate(zip(got, want)):
        if not close(x, y, eps, scale):
            d.fail('%s: value %d is %r, expected %r (got %s, expected %s)' % (what, i, x, y, short(got), short(want)))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


MED_NAMES = ['POINT1', 'SEG2', 'SEG3', 'SEG4', 'POLYL', 'TRI3', 'QUAD4', 'TRI6', 'TRI7', 'QUAD8', 'QUAD9', 'POLYGON', 'QPOLYG', 'TETRA4', 'PYRA5', 'PENTA6', 'HEXA8', 'HEXGP12', 'TETRA10', 'PYRA13', 'PENTA15', 'PENTA18', 'HEXA20', 'HEXA27', 'POLYHED']


def ordered(runs, order):
    pos = [order.index(t) for t in runs]
    return all(a < b for a, b in zip(pos, pos[1:]))


def cellgeo(pm):
    return [(t, [tuple(pm.xyz[v]) if v >= 0 else -1 for v in c]) for t, c in pm.cells]
