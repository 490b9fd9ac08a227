"""Run by mpirun (props/c34.py): plays the scenarios of a pickle file on the ranks, each rank writes its results."""
import ctypes
import pickle
import sys
mpi = ctypes.CDLL('libmpi.so.40', mode=ctypes.RTLD_GLOBAL)
mpi.MPI_Init(None, None)
import medcoupling as mc
import ParaMEDMEM as pm

S = pickle.load(open(sys.argv[1], 'rb'))
itf = pm.CommInterface()
rank = pm.MPIProcessorGroup(itf).myRank()


def mesh(sp):
    m = mc.MEDCouplingUMesh('m', sp['md'])
    m.setCoords(mc.DataArrayDouble(sp['coo'], len(sp['coo']) // sp['sd'], sp['sd']))
    m.setConnectivity(mc.DataArrayInt(sp['c']), mc.DataArrayInt(sp['ci']))
    return m


def field(m, on, nature, vals, nc):
    f = mc.MEDCouplingFieldDouble(mc.ON_CELLS if on == 'P0' else mc.ON_NODES, mc.ONE_TIME)
    f.setMesh(m)
    f.setNature(nature)
    n = m.getNumberOfCells() if on == 'P0' else m.getNumberOfNodes()
    f.setArray(mc.DataArrayDouble(vals if vals is not None else [-77.] * (n * nc), n, nc))
    return f


def interp(s):
    out = []
    ns = s['ns']
    l1, l2 = list(range(ns)), list(range(ns, s['np']))
    g1, g2 = pm.MPIProcessorGroup(itf, l1), pm.MPIProcessorGroup(itf, l2)
    dec = pm.InterpKernelDEC(g1, g2)
    src = rank < ns
    p = s['parts'][rank]
    m = mesh(p['mesh'])
    nc = s['nc']
    f = field(m, s['meth'][:2] if src else s['meth'][2:], s['nature'], p['vals'][0] if src else None, nc)
    dec.setMethod(s['meth'][:2] if src else s['meth'][2:])
    dec.attachLocalField(f)
    dec.synchronize()
    for k, way in enumerate(s['ways']):
        if way == '>':
            if src:
                f.getArray().setValues(p['vals'][k], f.getArray().getNumberOfTuples(), nc)
                dec.sendData()
            else:
                f.getArray().fillWithValue(-77.)
                dec.recvData()
                out.append(f.getArray().getValues())
        else:
            if src:
                f.getArray().fillWithValue(-77.)
                dec.recvData()
                out.append(f.getArray().getValues())
            else:
                f.getArray().setValues(p['vals'][k], f.getArray().getNumberOfTuples(), nc)
                dec.sendData()
    dec.release()
    g1.release()
    g2.release()
    return out


def overlap(s):
    dec = pm.OverlapDEC(list(range(s['np'])))
    dec.setWorkSharingAlgo(s['algo'])
    p = s['parts'][rank]
    fs = field(mesh(p['src']), s['meth'][:2], s['nature'], p['vals'][0], s['nc'])
    ft = field(mesh(p['tgt']), s['meth'][2:], s['nature'], None, s['nc'])
    dec.attachSourceLocalField(fs)
    dec.attachTargetLocalField(ft)
    dec.synchronize()
    out = []
    for v in p['vals']:
        fs.getArray().setValues(v, fs.getArray().getNumberOfTuples(), s['nc'])
        ft.getArray().fillWithValue(-77.)
        dec.sendRecvData()
        out.append(ft.getArray().getValues())
    dec.release()
    return out


def structured(s):
    ns = s['ns']
    g1, g2 = pm.MPIProcessorGroup(itf, list(range(ns))), pm.MPIProcessorGroup(itf, list(range(ns, s['np'])))
    dec = pm.StructuredCoincidentDEC(g1, g2)
    p = s['parts'][rank]
    f = field(mesh(p['mesh']), 'P0', mc.IntensiveMaximum, p['vals'][0] if rank < ns else None, s['nc'])
    dec.attachLocalField(f)
    dec.synchronize()
    out = []
    if rank < ns:
        dec.sendData()
    else:
        dec.recvData()
        out.append(f.getArray().getValues())
    dec.release()
    g1.release()
    g2.release()
    return out


def para(s):
    p = s['parts'][rank]
    m = mesh(p['mesh'])
    u = pm.ParaUMesh(m, mc.DataArrayInt(p['gc']), mc.DataArrayInt(p['gn']))
    out = []
    for q in p['queries']:
        out.append(sorted(u.getCellIdsLyingOnNodes(mc.DataArrayInt(q[0]), q[1]).getValues()))
    r = u.redistributeCells(mc.DataArrayInt(p['want']))
    x = r.getMesh()
    gc, gn = r.getGlobalCellIds().getValues(), r.getGlobalNodeIds().getValues()
    coo = x.getCoords().getValues()
    sd = x.getSpaceDimension()
    out.append(sorted((gc[i], x.getTypeOfCell(i), [gn[j] for j in x.getNodeIdsOfCell(i)]) for i in range(x.getNumberOfCells())))
    out.append(sorted((gn[j], coo[j * sd:j * sd + sd]) for j in range(x.getNumberOfNodes())))
    return out


res = []
for s in S:
    try:
        res.append(('ok', globals()[s['kind']](s)))
    except mc.InterpKernelException as e:
        res.append(('exc', str(e)))
        break
pickle.dump(res, open('%s.%d' % (sys.argv[2], rank), 'wb'))
if res[-1][0] == 'exc':
    import os
    os._exit(3)
mpi.MPI_Finalize()
