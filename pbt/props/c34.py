"""C34 - parallel transfers. Generated meshes are cut in any way between 2 to 5 MPI processes (mpi/driver.py run by mpirun);
the values received by each process are compared with the sequential interpolation of the whole meshes, or with the
permutation asked for. Each case plays several exchanges with the same processes."""
import glob
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import build
from common import *
from engine import check

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAT = {'IM': mc.IntensiveMaximum, 'EC': mc.ExtensiveConservation, 'EM': mc.ExtensiveMaximum, 'IC': mc.IntensiveConservation}


def grid(d, sd, tri=True, box=None):
    """a mesh of the box [0,4]^sd"""
    g = mc.MEDCouplingCMesh()
    ax = []
    for _ in range(sd):
        n = d.int(2 if sd == 2 else 1, 3 if sd == 3 else 4)
        x = [0.] + sorted(d.choice([.25, .5, .75]) + k * 4. / n for k in range(1, n)) + [4.25]
        ax.append(mc.DataArrayDouble(x))
    g.setCoords(*ax)
    u = g.buildUnstructured()
    if tri and sd == 2 and d.bool():
        u.simplexize(d.below(2))
    if sd == 3 and d.bool():
        u.simplexize(mc.PLANAR_FACE_5 if d.bool() else mc.PLANAR_FACE_6)
    perm = mc.DataArrayInt(d.perm(u.getNumberOfCells()))
    u = u[perm]
    u.renumberNodes(d.perm(u.getNumberOfNodes()), u.getNumberOfNodes())
    u.setName('m')
    return u


def spec(m):
    return dict(md=m.getMeshDimension(), sd=m.getSpaceDimension(), coo=L(m.getCoords()), c=L(m.getNodalConnectivity()), ci=L(m.getNodalConnectivityIndex()))


def cut(d, n, k, empty=True):
    """n cells on k processes: list of lists"""
    own = [d.below(k) for _ in range(n)]
    if not empty:
        d.assume(n >= k)
        for j, i in enumerate(d.perm(n)[:k]):
            own[i] = j
    return [[i for i in range(n) if own[i] == j] for j in range(k)]


def part(m, ids):
    s = m[mc.DataArrayInt(ids) if ids else mc.DataArrayInt(0, 1)]
    o2n = s.zipCoordsTraducer()
    n2o = L(o2n.invertArrayO2N2N2O(s.getNumberOfNodes()))
    return s, n2o


def vals(d, n, nc):
    return [d.int(1, 60) / 4. for _ in range(n * nc)]


def pick(v, ids, nc):
    return [x for i in ids for x in v[i * nc:i * nc + nc]]


def whole(m, on, nature, v, nc):
    f = mc.MEDCouplingFieldDouble(mc.ON_CELLS if on == 'P0' else mc.ON_NODES, mc.ONE_TIME)
    f.setMesh(m)
    f.setNature(nature)
    f.setArray(mc.DataArrayDouble(v, len(v) // nc, nc))
    return f


def sc_interp(d, np_, empty=True):
    sd = d.choice([2, 2, 2, 3])
    s, t = grid(d, sd), grid(d, sd)
    ns = d.int(1, np_ - 1)
    meth = d.choice(['P0P0', 'P0P0'] + (['P0P1'] if np_ - ns == 1 else []) + (['P1P0'] if ns == 1 else []))
    if meth != 'P0P0':      # nodes cannot be shared: P1 side on simplexes, not cut
        for on, m in ((meth[:2], s), (meth[2:], t)):
            if on == 'P1':
                m.simplexize(0 if sd == 2 else mc.PLANAR_FACE_5)
    nat = d.choice(sorted(NAT)) if meth == 'P0P0' else 'IM'
    nc = d.int(1, 3)
    ns_, nt_ = np_ - (np_ - ns), np_ - ns
    cs = cut(d, s.getNumberOfCells(), ns, empty) if meth[:2] == 'P0' else None
    ct = cut(d, t.getNumberOfCells(), nt_, empty) if meth[2:] == 'P0' else None
    if cs is None:
        d.assume(ns == 1)
        cs = [list(range(s.getNumberOfCells()))]
    if ct is None:
        d.assume(nt_ == 1)
        ct = [list(range(t.getNumberOfCells()))]
    ways = [d.choice('>><') for _ in range(d.int(1, 3))] if meth == 'P0P0' else ['>'] * d.int(1, 2)
    r = mc.MEDCouplingRemapper()
    r.prepare(s, t, meth)
    parts, exp = [], [[] for _ in range(np_)]
    locs = []
    for k in range(np_):
        m, ids = (s, cs[k]) if k < ns else (t, ct[k - ns])
        p, n2o = part(m, ids)
        on = meth[:2] if k < ns else meth[2:]
        loc = ids if on == 'P0' else n2o
        locs.append(loc)
        parts.append(dict(mesh=spec(p), vals=[None] * len(ways)))
    for w, way in enumerate(ways):
        a, b = (s, t) if way == '>' else (t, s)
        ona = meth[:2] if way == '>' else meth[2:]
        v = vals(d, a.getNumberOfCells() if ona == 'P0' else a.getNumberOfNodes(), nc)
        f = whole(a, ona, NAT[nat], v, nc)
        g = r.transferField(f, 0.) if way == '>' else r.reverseTransferField(f, 0.)
        e = L(g.getArray())
        for k in range(np_):
            if (k < ns) == (way == '>'):
                parts[k]['vals'][w] = pick(v, locs[k], nc)
            else:
                exp[k].append(pick(e, locs[k], nc))
    for p in parts:
        if p['vals'][0] is None:
            p['vals'][0] = None
    d.label('interp ' + meth + nat)
    return dict(kind='interp', np=np_, ns=ns, nc=nc, nature=NAT[nat], meth=meth, ways=ways, parts=parts), exp


def sc_overlap(d, np_, empty=False):
    sd = d.choice([2, 2, 2, 3])
    s, t = grid(d, sd), grid(d, sd)
    nc = d.int(1, 3)
    nat = d.choice(['IM'])
    cs, ct = cut(d, s.getNumberOfCells(), np_, empty), cut(d, t.getNumberOfCells(), np_, empty)
    r = mc.MEDCouplingRemapper()
    r.prepare(s, t, 'P0P0')
    nr = d.int(1, 3)
    parts = []
    for k in range(np_):
        parts.append(dict(src=spec(part(s, cs[k])[0]), tgt=spec(part(t, ct[k])[0]), vals=[]))
    exp = [[] for _ in range(np_)]
    for _ in range(nr):
        v = vals(d, s.getNumberOfCells(), nc)
        e = L(r.transferField(whole(s, 'P0', NAT[nat], v, nc), 0.).getArray())
        for k in range(np_):
            parts[k]['vals'].append(pick(v, cs[k], nc))
            exp[k].append(pick(e, ct[k], nc))
    d.label('overlap')
    return dict(kind='overlap', np=np_, nc=nc, nature=NAT[nat], meth='P0P0', algo=d.below(3), parts=parts), exp


def sc_structured(d, np_, empty=False):
    m = grid(d, 2)
    n = m.getNumberOfCells()
    ns = d.int(1, np_ - 1)
    nc = d.int(1, 3)
    v = vals(d, n, nc)
    parts, exp = [], [[] for _ in range(np_)]
    for k, (a, lo) in enumerate([(ns, 0)] * ns + [(np_ - ns, ns)] * (np_ - ns)):
        if k == lo:
            b = [0] + sorted(d.int(0, n) for _ in range(a - 1)) + [n]
            if not empty:
                d.assume(all(x < y for x, y in zip(b, b[1:])))
        ids = list(range(b[k - lo], b[k - lo + 1]))
        parts.append(dict(mesh=spec(part(m, ids)[0]), vals=[pick(v, ids, nc)]))
        if k >= ns:
            exp[k].append(pick(v, ids, nc))
    d.label('structured')
    return dict(kind='structured', np=np_, ns=ns, nc=nc, parts=parts), exp


def sc_para(d, np_, empty=True):
    m = grid(d, d.choice([2, 2, 3]))
    n, nn = m.getNumberOfCells(), m.getNumberOfNodes()
    own = cut(d, n, np_, empty)
    want = cut(d, n, np_, empty)
    nq = d.int(1, 2)
    parts, exp = [], []
    coo = m.getCoords().getValuesAsTuple()
    conn = [m.getNodeIdsOfCell(i) for i in range(n)]
    for k in range(np_):
        p, n2o = part(m, own[k])
        qs, e = [], []
        for _ in range(nq):
            ids = [i for i in range(nn) if d.bool()]
            full = d.bool()
            qs.append((ids, full))
        parts.append(dict(mesh=spec(p), gc=own[k], gn=n2o, want=want[k], queries=qs))
    full = [d.bool() for _ in range(nq)]
    for k in range(np_):
        parts[k]['queries'] = [(q[0], full[j]) for j, q in enumerate(parts[k]['queries'])]
        e = []
        for ids, fu in parts[k]['queries']:
            st = set(ids)
            e.append([i for i in range(n) if (st.issuperset(conn[i]) if fu else st.intersection(conn[i]))])
        w = want[k]
        e.append(sorted((i, m.getTypeOfCell(i), list(conn[i])) for i in w))
        e.append(sorted((j, list(coo[j])) for j in set(x for i in w for x in conn[i])))
        exp.append(e)
    d.label('para')
    return dict(kind='para', np=np_, parts=parts), exp


def play(d, np_, scs):
    tmp = tempfile.mkdtemp(prefix='mpi_')
    try:
        pickle.dump([s for s, _ in scs], open(tmp + '/s.pkl', 'wb'))
        env = build.env_for('rel')
        env['PYTHONPATH'] = env['PYTHONPATH']
        env.update(TMPDIR=tmp, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', HOME=tmp)
        cmd = ['mpirun', '--oversubscribe', '--bind-to', 'none', '--mca', 'btl', 'self,vader', '--mca', 'btl_vader_single_copy_mechanism', 'none',
               '--mca', 'mpi_yield_when_idle', '1', '--mca', 'plm', 'isolated', '-np', str(np_), sys.executable, HERE + '/mpi/driver.py', tmp + '/s.pkl', tmp + '/r']
        log = open(tmp + '/log', 'w')
        p = subprocess.Popen(cmd, env=env, stdout=log, stderr=log, cwd=tmp, start_new_session=True)
        try:
            rc = p.wait(timeout=90)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            subprocess.run(['pkill', '-9', '-f', tmp + '/s.pkl'])
            rc = 'blocked'
        txt = open(tmp + '/log').read()[-1500:]
        out = []
        for k in range(np_):
            try:
                out.append(pickle.load(open('%s/r.%d' % (tmp, k), 'rb')))
            except FileNotFoundError:
                out.append([])
        for k, o in enumerate(out):
            for x in o:
                if x[0] == 'exc':
                    d.fail('process %d of %d raises: %s' % (k, np_, x[1][:300]))
        d.check(rc == 0, '%s on %d processes ends with status %s: %s' % ([s['kind'] for s, _ in scs], np_, rc, txt))
        for k in range(np_):
            for (s, e), (_, r) in zip(scs, out[k]):
                what = '%s on process %d/%d' % (s['kind'], k, np_)
                if s['kind'] == 'para':
                    for j, (x, y) in enumerate(zip(r, e[k])):
                        eq(d, [tuple(z) if isinstance(z, tuple) else z for z in x], y, what + ' result %d' % j)
                    continue
                eq(d, len(r), len(e[k]), what + ': number of receptions')
                for j, (x, y) in enumerate(zip(r, e[k])):
                    eq(d, len(x), len(y), what)
                    for a, b in zip(x, y):
                        d.check(abs(a - b) <= 1e-10 * (1 + abs(b)), what + ' reception %d: %s instead of %s' % (j, x, y))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(d, fn):
    np_ = d.int(2, 5)
    scs = [fn(d, np_) for _ in range(d.int(1, 4))]
    d.sample([(s['kind'], np_, s.get('meth'), s.get('ways')) for s, _ in scs])
    d.nontrivial(any(len(p) > 0 for _, e in scs for q in e for p in q))
    play(d, np_, scs)


@check(n=64, rule='some process receives values', hang=200, thorough=8)
def interp(d):
    """InterpKernelDEC between two groups: any distribution, natures, components, repeated sends in both directions"""
    run(d, sc_interp)


@check(n=64, rule='some process receives values', hang=200, thorough=8)
def overlap(d):
    """OverlapDEC: source and target on the same processes, the three work sharing algorithms, repeated exchanges"""
    run(d, sc_overlap)


@check(n=40, rule='some process receives values', hang=200, thorough=8)
def structured(d):
    """StructuredCoincidentDEC: blocks of consecutive cells redistributed on other processes"""
    run(d, sc_structured)


@check(n=48, rule='some process receives values', hang=200, thorough=8)
def para(d):
    """ParaUMesh: cells lying on nodes given on any process, redistribution of cells and their nodes"""
    run(d, sc_para)
