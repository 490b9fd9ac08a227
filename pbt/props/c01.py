"""C01: arrays behave as a plain list of tuples under selection / permutation / assignment."""
from common import *
import pickle

KINDS = ['d', 'i32', 'i64', 'f', 'b', 'a']
CLS = {'d': mc.DataArrayDouble, 'f': mc.DataArrayFloat, 'i32': mc.DataArrayInt32, 'i64': mc.DataArrayInt64, 'b': mc.DataArrayByte, 'a': mc.DataArrayAsciiChar}
INFOS = ['', 'X [m]', 'Y', 'T [K]', 'p q [s]', '[u]']


class Mod:
    """reference: list of tuples + names"""

    def __init__(self, kind, nc, rows, name, infos):
        self.kind, self.nc, self.rows, self.name, self.infos = kind, nc, [tuple(r) for r in rows], name, list(infos)

    def copy(self):
        return Mod(self.kind, self.nc, self.rows, self.name, self.infos)


def val(d, kind):
    if kind == 'a':
        return d.choice('abcdefgh')
    if kind == 'b':
        return d.int(-100, 100) if d.bool(.2) else d.int(0, 9)
    if kind in ('d', 'f'):
        return d.sint(40) / 4.
    return d.sint(30)


def draw_model(d, kind, nt=None, nc=None):
    nc = d.choice([1, 1, 2, 3, 4, 7]) if nc is None else nc
    nt = d.size(40 if d.bool(.1) else 10) if nt is None else nt
    rows = [tuple(val(d, kind) for _ in range(nc)) for _ in range(nt)]
    return Mod(kind, nc, rows, d.choice(['', 'arr', 'a b']), [d.choice(INFOS) for _ in range(nc)])


def build(m):
    c = CLS[m.kind]
    flat = [v for r in m.rows for v in r]
    if m.kind == 'a':
        a = c.New()
        a.alloc(len(m.rows), m.nc)
        for i, r in enumerate(m.rows):
            for j, v in enumerate(r):
                a.setIJ(i, j, v)
    elif m.kind in ('b',):
        a = c.New()
        a.alloc(len(m.rows), m.nc)
        for i, r in enumerate(m.rows):
            for j, v in enumerate(r):
                a.setIJ(i, j, v)
    elif m.kind == 'f':
        x = mc.DataArrayDouble(len(m.rows), m.nc)
        if m.rows:
            x.setValues(flat, len(m.rows), m.nc)
        a = x.convertToFloatArr()
    elif m.rows:
        a = c.New()
        a.setValues(flat, len(m.rows), m.nc)
    else:
        a = c.New()
        a.alloc(0, m.nc)
    a.setName(m.name)
    a.setInfoOnComponents(m.infos)
    return a


def rows_of(a, kind):
    n, c = a.getNumberOfTuples(), a.getNumberOfComponents()
    if kind in ('a', 'b'):
        return [tuple(a.getIJ(i, j) for j in range(c)) for i in range(n)]
    v = a.getValues()
    return [tuple(v[i * c:(i + 1) * c]) for i in range(n)]


def same(d, a, m, what):
    got = (a.getNumberOfTuples(), a.getNumberOfComponents())
    if got != (len(m.rows), m.nc):
        d.fail('%s: shape %s, expected %s' % (what, got, (len(m.rows), m.nc)))
    r = rows_of(a, m.kind)
    if r != m.rows:
        d.fail('%s: got %s expected %s' % (what, short(r), short(m.rows)))
    if a.getName() != m.name:
        d.fail('%s: name %r expected %r' % (what, a.getName(), m.name))
    if list(a.getInfoOnComponents()) != m.infos:
        d.fail('%s: component infos %s expected %s' % (what, a.getInfoOnComponents(), m.infos))


def draw_slice(d, n):
    """python slice (start,stop,step) selecting inside range(n), any sign; may be empty"""
    step = d.choice([1, 2, 3, 1, -1, -2, 5])
    if n == 0:
        return 0, 0, abs(step)
    a = d.int(0, n - 1)
    if step > 0:
        return a, d.int(a, n), step
    return a, d.int(-1, a), step


def ids_of(s):
    return list(range(*s))


# every op: (needs, fn(d, a, m) -> (a, m)); returns the array to go on with
def op_selectByTupleId(d, a, m):
    n = len(m.rows)
    ids = [d.below(n) for _ in range(d.size(2 * n + 2))] if n else []
    f = d.choice(['selectByTupleId', 'selectByTupleIdSafe'])
    arg = ids if d.bool() else I(ids)
    r = m.copy()
    r.rows = [m.rows[i] for i in ids]
    return getattr(a, f)(arg), r


def op_selectSlice(d, a, m):
    s = draw_slice(d, len(m.rows))
    r = m.copy()
    r.rows = [m.rows[i] for i in ids_of(s)]
    return a.selectByTupleIdSafeSlice(*s), r


def op_ranges(d, a, m):
    n = len(m.rows)
    rg = []
    for _ in range(d.int(0, 4)):
        b = d.int(0, n)
        rg.append((b, d.int(b, n)))
    r = m.copy()
    r.rows = [m.rows[i] for b, e in rg for i in range(b, e)]
    return a.selectByTupleRanges(rg), r


def op_keep(d, a, m):
    cs = [d.below(m.nc) for _ in range(d.int(1, m.nc + 2))]
    r = m.copy()
    r.nc = len(cs)
    r.rows = [tuple(t[c] for c in cs) for t in m.rows]
    r.infos = [m.infos[c] for c in cs]
    b = a.keepSelectedComponents(cs)
    r.name = b.getName()        # the name of a column extraction is not specified
    return b, r


def op_renumber(d, a, m):
    n = len(m.rows)
    p = d.perm(n)
    f = d.choice(['renumber', 'renumberR', 'renumberInPlace', 'renumberInPlaceR'])
    if not hasattr(a, f):
        f = 'renumberInPlace'
    r = m.copy()
    if f.endswith('R'):
        r.rows = [m.rows[p[i]] for i in range(n)]
    else:
        r.rows = [None] * n
        for i in range(n):
            r.rows[p[i]] = m.rows[i]
    arg = p if d.bool() else I(p)
    ret = getattr(a, f)(arg)
    return (a if 'InPlace' in f else ret), r


def op_renumberAndReduce(d, a, m):
    n = len(m.rows)
    keep = d.subset(n, .7)
    p = d.perm(len(keep))
    o2n = [-1 - d.below(2)] * n
    for k, i in enumerate(keep):
        o2n[i] = p[k]
    r = m.copy()
    r.rows = [None] * len(keep)
    for k, i in enumerate(keep):
        r.rows[p[k]] = m.rows[i]
    return a.renumberAndReduce(I(o2n), len(keep)), r


def op_subArray(d, a, m):
    n = len(m.rows)
    if n == 0:
        return a, m
    b = d.int(0, n - 1)
    e = d.int(b, n)
    r = m.copy()
    if d.bool(.3):
        r.rows = m.rows[b:]
        return a.subArray(b), r
    r.rows = m.rows[b:e]
    return a.subArray(b, e), r


def op_changeNbOfComponents(d, a, m):
    k = d.int(1, m.nc + 3)
    v = val(d, m.kind)
    r = m.copy()
    r.nc = k
    r.rows = [t[:k] + (v,) * (k - m.nc) for t in m.rows]
    r.infos = (m.infos + [''] * k)[:k]
    return a.changeNbOfComponents(k, v), r


def op_rearrange(d, a, m):
    tot = len(m.rows) * m.nc
    if tot == 0:
        return a, m
    divs = [k for k in range(1, tot + 1) if tot % k == 0]
    k = d.choice(divs)
    flat = [v for t in m.rows for v in t]
    r = m.copy()
    r.nc = k
    r.rows = [tuple(flat[i:i + k]) for i in range(0, tot, k)]
    r.infos = [''] * k
    if d.bool(.2) and hasattr(a, 'transpose') and len(m.rows):
        k = len(m.rows)
        r.nc = k
        r.rows = [tuple(flat[i:i + k]) for i in range(0, tot, k)]
        r.infos = [''] * k
        a.transpose()
        return a, r
    a.rearrange(k)
    return a, r


def op_circular(d, a, m):
    n = len(m.rows)
    if n == 0:
        return a, m
    k = d.sint(2 * n + 3)
    r = m.copy()
    if d.bool():
        a.circularPermutation(k)
        r.rows = [m.rows[(i + k) % n] for i in range(n)]
    else:
        a.circularPermutationPerTuple(k)
        r.rows = [tuple(t[(j + k) % m.nc] for j in range(m.nc)) for t in m.rows]
        r.infos = [m.infos[(j + k) % m.nc] for j in range(m.nc)]
    return a, r


def op_reverse(d, a, m):
    r = m.copy()
    if d.bool() and hasattr(a, 'reverse'):
        a.reverse()
        r.rows = m.rows[::-1]
    else:
        a.reversePerTuple()
        r.rows = [t[::-1] for t in m.rows]
        r.infos = m.infos[::-1]
    return a, r


def op_duplicate(d, a, m):
    if not hasattr(a, 'duplicateEachTupleNTimes'):
        return a, m
    k = d.int(1, 3)
    r = m.copy()
    if d.bool() and hasattr(a, 'duplicateNTimes'):
        r.rows = m.rows * k
        b = a.duplicateNTimes(k)
    elif m.nc == 1:
        r.rows = [t for t in m.rows for _ in range(k)]
        b = a.duplicateEachTupleNTimes(k)
    else:
        return a, m
    return b, r


def op_aggregate(d, a, m):
    if m.kind == 'f':
        return a, m
    o = [draw_model(d, m.kind, nc=m.nc) for _ in range(d.int(1, 3))]
    r = m.copy()
    if d.bool() and hasattr(a, 'aggregate'):
        r.rows = m.rows + o[0].rows
        a.aggregate(build(o[0]))
        return a, r
    if d.bool():
        r.rows = m.rows + o[0].rows
        return (CLS[m.kind].Aggregate(a, build(o[0])) if m.kind == 'd' else CLS[m.kind].Aggregate(a, build(o[0]), 0) if m.kind[0] == 'i' else CLS[m.kind].Aggregate(a, build(o[0]))), r
    r.rows = m.rows + [t for x in o for t in x.rows]
    return CLS[m.kind].Aggregate([a] + [build(x) for x in o]), r


def op_meld(d, a, m):
    o = draw_model(d, m.kind, nt=len(m.rows))
    r = m.copy()
    r.nc += o.nc
    r.rows = [s + t for s, t in zip(m.rows, o.rows)]
    r.infos = m.infos + o.infos
    if d.bool() and hasattr(a, 'meldWith'):
        a.meldWith(build(o))
        return a, r
    res = CLS[m.kind].Meld(a, build(o))
    r.name = res.getName()      # name of a meld: not specified
    return res, r


def op_explode(d, a, m):
    if not hasattr(a, 'explodeComponents'):
        return a, m
    parts = a.explodeComponents()
    if len(parts) != m.nc:
        d.fail('explodeComponents: %d parts for %d components' % (len(parts), m.nc))
    for j, p in enumerate(parts):
        r = m.copy()
        r.nc = 1
        r.rows = [(t[j],) for t in m.rows]
        r.infos = [m.infos[j]]
        r.name = p.getName()
        same(d, p, r, 'explodeComponents[%d]' % j)
    return a, m


def op_setSelectedComponents(d, a, m):
    if not hasattr(a, 'setSelectedComponents'):
        return a, m
    cs = d.sample_ids(m.nc, d.int(1, m.nc))
    o = draw_model(d, m.kind, nt=len(m.rows) if d.bool() else None, nc=len(cs))
    r = m.copy()
    rows = [list(t) for t in m.rows]
    for i in range(min(len(rows), len(o.rows))):
        for k, c in enumerate(cs):
            rows[i][c] = o.rows[i][k]
    r.rows = [tuple(t) for t in rows]
    for k, c in enumerate(cs):
        r.infos[c] = o.infos[k]
    a.setSelectedComponents(build(o), cs)
    return a, r


def op_setContig(d, a, m):
    n = len(m.rows)
    o = draw_model(d, m.kind, nc=m.nc, nt=d.size(10, 1))
    r = m.copy()
    rows = list(m.rows)
    if n == 0:
        return a, m
    pos = d.int(0, n - 1)
    if d.bool():
        ids = [d.below(len(o.rows)) for _ in range(d.int(0, n - pos))]
        a.setContigPartOfSelectedValues(pos, build(o), I(ids))
    else:
        b = d.int(0, len(o.rows) - 1)
        st = d.int(1, 3)
        e = d.int(b, len(o.rows))
        ids = list(range(b, e, st))
        if len(ids) > n - pos:
            ids = ids[:n - pos]
            e = ids[-1] + 1 if ids else b
        a.setContigPartOfSelectedValuesSlice(pos, build(o), b, e, st)
    for k, i in enumerate(ids):
        rows[pos + k] = o.rows[i]
    r.rows = rows
    return a, r


def op_setPartAdv(d, a, m):
    n = len(m.rows)
    if n == 0:
        return a, m
    o = draw_model(d, m.kind, nc=m.nc, nt=d.size(10, 1))
    tg = d.sample_ids(n, d.int(0, n))
    pr = [(t, d.below(len(o.rows))) for t in tg]
    rows = list(m.rows)
    for t, s in pr:
        rows[t] = o.rows[s]
    r = m.copy()
    r.rows = rows
    a.setPartOfValuesAdv(build(o), I([v for p in pr for v in p], 2))
    return a, r


def op_setPart1(d, a, m):
    """slice x slice assignment"""
    if not hasattr(a, 'setPartOfValues1') or not m.rows:
        return a, m
    n = len(m.rows)
    tb = d.int(0, n - 1)
    te, ts = d.int(tb + 1, n), d.int(1, 3)
    cb = d.int(0, m.nc - 1)
    ce, cs = d.int(cb + 1, m.nc), d.int(1, 2)
    ti, ci = list(range(tb, te, ts)), list(range(cb, ce, cs))
    rows = [list(t) for t in m.rows]
    r = m.copy()
    k = d.below(3)
    if k == 0:
        v = val(d, m.kind)
        for i in ti:
            for j in ci:
                rows[i][j] = v
        a.setPartOfValuesSimple1(v, tb, te, ts, cb, ce, cs)
    elif k == 1:
        o = draw_model(d, m.kind, nt=len(ti), nc=len(ci))
        for x, i in enumerate(ti):
            for y, j in enumerate(ci):
                rows[i][j] = o.rows[x][y]
        a.setPartOfValues1(build(o), tb, te, ts, cb, ce, cs, True)
    else:
        # non strict: same number of values in another shape, or one tuple for all
        if d.bool():
            o = draw_model(d, m.kind, nt=1, nc=len(ci))
            for i in ti:
                for y, j in enumerate(ci):
                    rows[i][j] = o.rows[0][y]
            o.infos = o.infos[:o.nc]
        else:
            o = draw_model(d, m.kind, nt=len(ti) * len(ci), nc=1)
            it = iter(o.rows)
            for i in ti:
                for j in ci:
                    rows[i][j] = next(it)[0]
        a.setPartOfValues1(build(o), tb, te, ts, cb, ce, cs, False)
    r.rows = [tuple(t) for t in rows]
    return a, r


def draw_sel(d, n, allow_neg=True):
    """(python index object, list of ids)"""
    k = d.below(4)
    if k == 0:
        ids = d.sample_ids(n, d.int(1, n))
        return ids, ids
    if k == 1:
        ids = d.sample_ids(n, d.int(1, n))
        return I(ids), ids
    if k == 2:
        i = d.below(n)
        return i, [i]
    b = d.int(0, n - 1)
    e = d.int(b + 1, n)
    st = d.int(1, 3)
    return slice(b if b or d.bool() else None, e if e < n or d.bool() else None, st if st > 1 or d.bool() else None), list(range(b, e, st))


def op_setitem(d, a, m):
    if m.kind in ('a', 'b', 'f') or not m.rows:
        return a, m
    n = len(m.rows)
    ri, rids = draw_sel(d, n)
    rows = [list(t) for t in m.rows]
    r = m.copy()
    if d.bool():
        cobj, cids = None, list(range(m.nc))
        key = ri
    else:
        while True:
            cobj, cids = draw_sel(d, m.nc)
            break
        if not isinstance(cobj, (int, slice, list)):
            cobj = cids
        key = (ri, cobj)
    if d.bool(.4):
        v = val(d, m.kind)
        for i in rids:
            for j in cids:
                rows[i][j] = v
        a[key] = v
    else:
        o = draw_model(d, m.kind, nt=len(rids), nc=len(cids))
        for x, i in enumerate(rids):
            for y, j in enumerate(cids):
                rows[i][j] = o.rows[x][y]
        a[key] = build(o)
    r.rows = [tuple(t) for t in rows]
    return a, r


def op_getitem(d, a, m):
    if m.kind in ('a', 'b', 'f') or not m.rows:
        return a, m
    n = len(m.rows)
    ri, rids = draw_sel(d, n)
    if isinstance(ri, int):
        ri = [ri]
        rids = ri
    cobj, cids = draw_sel(d, m.nc)
    if not isinstance(cobj, (int, slice, list)):
        cobj = cids
    r = m.copy()
    if d.bool():
        r.rows = [m.rows[i] for i in rids]
        return a[ri], r
    r.rows = [tuple(m.rows[i][j] for j in cids) for i in rids]
    r.nc = len(cids)
    r.infos = [m.infos[j] for j in cids]
    b = a[ri, cobj]
    r.name = b.getName()
    return b, r


def op_push(d, a, m):
    if m.nc != 1 or not hasattr(a, 'pushBackSilent'):
        return a, m
    r = m.copy()
    k = d.below(4)
    if m.kind in ('a', 'b', 'f'):
        k = 0
    if k == 0:
        v = val(d, m.kind)
        a.pushBackSilent(v)
        r.rows = m.rows + [(v,)]
    elif k == 1:
        vs = [val(d, m.kind) for _ in range(d.size(12, 1))]
        a.pushBackValsSilent(vs)
        r.rows = m.rows + [(v,) for v in vs]
    elif k == 2 and m.rows:
        v = a.popBackSilent()
        if v != m.rows[-1][0]:
            d.fail('popBackSilent returned %r expected %r' % (v, m.rows[-1][0]))
        r.rows = m.rows[:-1]
    else:
        a.reserve(d.size(40, len(m.rows)))
    return a, r


def op_pack(d, a, m):
    if d.bool() and hasattr(a, 'reserve') and m.nc == 1:
        a.reserve(len(m.rows) + 7)
        a.pack()
        return a, m
    n = d.size(len(m.rows) + 4)
    r = m.copy()
    if n <= len(m.rows):
        a.reAlloc(n)
        r.rows = m.rows[:n]
    else:
        a.reAlloc(n)
        for i in range(len(m.rows), n):      # new tuples are not initialised
            for j in range(m.nc):
                a.setIJ(i, j, val_fixed(m.kind)) if m.kind != 'f' else None
        if m.kind == 'f':
            return a.subArray(0, len(m.rows)) if hasattr(a, 'subArray') else a.selectByTupleIdSafeSlice(0, len(m.rows), 1), m
        r.rows = m.rows + [(val_fixed(m.kind),) * m.nc] * (n - len(m.rows))
    return a, r


def val_fixed(kind):
    return 'z' if kind == 'a' else 3


def op_fill(d, a, m):
    r = m.copy()
    v = val(d, m.kind)
    a.fillWithValue(v)
    r.rows = [(v,) * m.nc] * len(m.rows)
    return a, r


def op_setIJ(d, a, m):
    if not m.rows or m.kind == 'f':
        return a, m
    i, j = d.below(len(m.rows)), d.below(m.nc)
    v = val(d, m.kind)
    (a.setIJ if d.bool() else a.setIJSilent)(i, j, v)
    rows = [list(t) for t in m.rows]
    rows[i][j] = v
    r = m.copy()
    r.rows = [tuple(t) for t in rows]
    if a.getIJ(i, j) != v or a.getIJSafe(i, j) != v:
        d.fail('getIJ(%d,%d)' % (i, j))
    return a, r


def op_sort(d, a, m):
    r = m.copy()
    asc = d.bool()
    if d.bool() and hasattr(a, 'sortPerTuple'):
        a.sortPerTuple(asc)
        r.rows = [tuple(sorted(t, reverse=not asc)) for t in m.rows]
        return a, r
    if m.nc == 1 and hasattr(a, 'sort') and m.kind not in ('f',):
        r.rows = sorted(m.rows, reverse=not asc)
        if asc and d.bool() and m.kind not in ('a', 'b'):
            b = a.copySorted()
            r.rows = sorted(m.rows)
            same(d, a, m, 'source of copySorted')
            r.name, r.infos = b.getName(), list(b.getInfoOnComponents())
            return b, r
        a.sort(asc)
    return a, r


def op_interlace(d, a, m):
    if not hasattr(a, 'toNoInterlace') or not m.rows:
        return a, m
    r = m.copy()
    n = len(m.rows)
    flat = [m.rows[i][j] for j in range(m.nc) for i in range(n)]
    r.rows = [tuple(flat[i * m.nc:(i + 1) * m.nc]) for i in range(n)]
    b = a.toNoInterlace()
    r.infos = list(b.getInfoOnComponents())     # the text attached to columns that are no more columns is not specified
    r.name = b.getName()
    same(d, b, r, 'toNoInterlace')
    q = m.copy()
    q.infos, q.name = r.infos, r.name
    same(d, b.fromNoInterlace(), q, 'fromNoInterlace(toNoInterlace)')
    return b, r


def op_copy(d, a, m):
    k = d.below(3)
    if k == 0:
        return a.deepCopy(), m
    if k == 1 and m.kind != 'f':
        b = CLS[m.kind].New()
        if not hasattr(b, 'deepCopyFrom'):
            return a, m
        b.deepCopyFrom(a)
        return b, m
    if m.kind in ('a', 'b'):
        return a, m
    return pickle.loads(pickle.dumps(a)), m


def op_names(d, a, m):
    r = m.copy()
    k = d.below(3)
    if k == 0:
        r.name = d.choice(['', 'new', 'other name'])
        a.setName(r.name)
    elif k == 1:
        j = d.below(m.nc)
        r.infos[j] = d.choice(INFOS)
        a.setInfoOnComponent(j, r.infos[j])
    else:
        o = draw_model(d, m.kind, nc=m.nc)
        a.copyStringInfoFrom(build(o))
        r.name, r.infos = o.name, o.infos
    return a, r


def op_partdef(d, a, m):
    if not hasattr(a, 'selectPartDef') or not m.rows:
        return a, m
    n = len(m.rows)
    r = m.copy()
    if d.bool():
        b = d.int(0, n - 1)
        e = d.int(b, n)
        st = d.int(1, 3)
        pd = mc.PartDefinition.New(b, e, st)
        ids = list(range(b, e, st))
    else:
        ids = d.sample_ids(n, d.int(0, n))
        pd = mc.PartDefinition.New(I(ids))
    r.rows = [m.rows[i] for i in ids]
    return a.selectPartDef(pd), r


def op_numpy(d, a, m):
    if m.kind in ('a',):
        return a, m
    x = a.toNumPyArray()
    got = [tuple(t) for t in x.reshape(len(m.rows), m.nc).tolist()] if m.rows else []
    if got != m.rows:
        d.fail('toNumPyArray: %s expected %s' % (short(got), short(m.rows)))
    if m.kind in ('d', 'i32', 'i64', 'f') and m.rows:
        y = np.array(x.reshape(len(m.rows), m.nc))
        b = CLS[m.kind](y)
        b.setName(m.name)
        b.setInfoOnComponents(m.infos)
        return b, m
    return a, m


OPS = [v for k, v in list(globals().items()) if k.startswith('op_')]


@check(n=120000, rule='at least two operations on an array with at least two tuples')
def sequences(d):
    """random sequence of operations on one array against the list model"""
    kind = d.choice(KINDS[:4] if d.bool(.75) else KINDS)
    m = draw_model(d, kind)
    a = build(m)
    same(d, a, m, 'construction')
    n = d.int(1, 8)
    names = []
    big = len(m.rows)
    for _ in range(n):
        op = d.choice(OPS)
        before, ma = a, m
        a2, m2 = step(d, op, a, m)
        names.append(op.__name__[3:])
        same(d, a2, m2, 'after %s' % ' > '.join(names))
        if a2 is not before and a2.getHiddenCppPointer() != before.getHiddenCppPointer():
            # result is a new array: its source must be untouched
            same(d, before, ma, 'source of %s' % names[-1])
        a, m = a2, m2
        big = max(big, len(m.rows))
        if len(m.rows) * m.nc > 4000:
            break
    d.label('kind ' + kind, *('op ' + x for x in names))
    d.nontrivial(len(names) > 1 and big > 1)
    d.sample('%s array, ops %s, final %s' % (kind, names, short(m.rows, 200)))


def step(d, op, a, m):
    need = {'op_selectByTupleId': 'selectByTupleId', 'op_subArray': 'subArray', 'op_renumberAndReduce': 'renumberAndReduce',
            'op_changeNbOfComponents': 'changeNbOfComponents', 'op_setPartAdv': 'setPartOfValuesAdv', 'op_pack': 'pack'}.get(op.__name__)
    if need and not hasattr(a, need):
        return a, m
    try:
        return op(d, a, m)
    except InterpKernelException as e:
        d.fail('%s raised on valid arguments: %s; array %s' % (op.__name__, e, short(m.rows)))


@check(n=4000, rule='at least 300 tuples')
def large(d):
    """bulk permutation/selection/assignment on large arrays against numpy"""
    n, c = d.int(300, 5000), d.int(1, 4)
    rs = d.nprng()
    kind = d.choice(['d', 'i64', 'i32'])
    x = rs.randint(-1000, 1000, (n, c)).astype({'d': float, 'i64': np.int64, 'i32': np.int32}[kind])
    a = CLS[kind](x)
    d.nontrivial()

    def cmp(b, y, w):
        if not np.array_equal(b.toNumPyArray().reshape(y.shape), y):
            d.fail('%s differs from numpy (n=%d c=%d)' % (w, n, c))
    p = rs.permutation(n)
    P = mc.DataArrayInt64(p.astype(np.int64))
    y = np.empty_like(x)
    y[p] = x
    cmp(a.renumber(P), y, 'renumber')
    cmp(a.renumberR(P), x[p], 'renumberR')
    b = a.deepCopy()
    b.renumberInPlace(P)
    cmp(b, y, 'renumberInPlace')
    b = a.deepCopy()
    b.renumberInPlaceR(P)
    cmp(b, x[p], 'renumberInPlaceR')
    ids = rs.randint(0, n, d.int(1, 2 * n))
    cmp(a.selectByTupleIdSafe(mc.DataArrayInt64(ids.astype(np.int64))), x[ids], 'selectByTupleIdSafe')
    st = d.int(1, 7)
    b0 = d.int(0, n - 1)
    cmp(a[b0::st], x[b0::st], 'slice')
    k = d.sint(2 * n)
    b = a.deepCopy()
    b.circularPermutation(k)
    cmp(b, np.roll(x, -k, axis=0), 'circularPermutation')
    ids = np.unique(ids)
    b = a.deepCopy()
    v = rs.randint(-5, 5, (len(ids), c)).astype(x.dtype)
    b[mc.DataArrayInt64(ids.astype(np.int64))] = CLS[kind](v)
    z = x.copy()
    z[ids] = v
    cmp(b, z, 'assignment by ids')
    cmp(CLS[kind].Aggregate([a, b, a]), np.vstack([x, z, x]), 'Aggregate')
    cmp(CLS[kind].Meld([a, b]), np.hstack([x, z]), 'Meld')
    if c == 1:
        s = a.deepCopy()
        s.sort()
        cmp(s, np.sort(x, axis=0), 'sort')


@check(n=20000, rule='array with at least 2 components and 2 tuples')
def split_rebuild(d):
    """decompose by components or by slices and rebuild: identity"""
    kind = d.choice(KINDS[:3])
    m = draw_model(d, kind)
    a = build(m)
    n = len(m.rows)
    d.nontrivial(n > 1 and m.nc > 1)
    if n:
        k = d.int(1, n)
        parts = [a[a.getSlice(slice(None, None, None), i, k)] for i in range(k)]
        b = CLS[kind].Aggregate(parts)
        same(d, b, m, 'Aggregate(getSlice...)')
        cs = [a.keepSelectedComponents([j]) for j in range(m.nc)]
        c = CLS[kind].Meld(cs)
        m2 = m.copy()
        m2.name = c.getName()
        same(d, c, m2, 'Meld(keepSelectedComponents)')
        part = d.sample_ids(n, d.int(0, n))
        rest = [i for i in range(n) if i not in part]
        e = CLS[kind].New()
        e.alloc(n, m.nc)
        e.setName(m.name)
        e.setInfoOnComponents(m.infos)
        for ids in (part, rest):
            if ids:
                e[ids] = a[ids]
        same(d, e, m, 'scatter/gather')
    # GetSlice ranges tile the slice
    st = d.choice([1, 2, 3])
    b0 = d.int(-5, 5)
    e0 = b0 + st * d.int(0, 12)
    k = d.int(1, 5)
    s = slice(b0, e0, st) if b0 >= 0 else slice(0, e0 - b0, st)
    got = []
    for q in range(k):
        r = mc.DataArray.GetSlice(s, q, k)
        r = r if isinstance(r, slice) else slice(*r)
        got += list(range(r.start, r.stop, r.step or 1))
    eq(d, got, list(range(s.start, s.stop, s.step)), 'GetSlice tiling of %s in %d' % (s, k))
