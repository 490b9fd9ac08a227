"""C03: indexed arrays, skyline arrays and part definitions against lists of lists / lists of ids."""
from common import *

DA = mc.DataArrayInt64


def draw_packs(d, n=None, mx=5, lo=0, hi=12, empty=True):
    n = d.size(20 if d.bool(.1) else 7) if n is None else n
    return [[d.int(lo, hi) for _ in range(d.size(mx, 0 if empty else 1))] for _ in range(n)]


def flat(p):
    v = [x for t in p for x in t]
    o = [0]
    for t in p:
        o.append(o[-1] + len(t))
    return v, o


def pair(p, shift=0):
    v, o = flat(p)
    return I(v), I(o)


def unpack(a, b):
    o = L(b)
    v = L(a)
    if o[0] != 0 or o[-1] != len(v) or any(x > y for x, y in zip(o, o[1:])):
        raise Violation('inconsistent index %s for %d values' % (o, len(v)))
    return packs(a, b)


def slc(d, n):
    st = d.choice([1, 2, 3, -1, -2])
    if n == 0:
        return 0, 0, abs(st)
    b = d.int(0, n - 1)
    e = d.int(b, n) if st > 0 else d.int(-1, b)
    return b, e, st


@check(n=60000, rule='at least 3 packs, not all of the same size')
def indexed_arrays(d):
    p = draw_packs(d)
    n = len(p)
    a, ai = pair(p)
    d.nontrivial(n > 2 and len(set(map(len, p))) > 1)
    d.sample(str(p))
    ids = [d.below(n) for _ in range(d.size(8))] if n else []
    r = DA.ExtractFromIndexedArrays(I(ids) if d.bool() else ids, a, ai)
    eq(d, unpack(*r), [p[i] for i in ids], 'ExtractFromIndexedArrays(%s)' % ids)
    s = slc(d, n)
    if s[2] > 0:
        r = DA.ExtractFromIndexedArraysSlice(s[0], s[1], s[2], a, ai)
        eq(d, unpack(*r), [p[i] for i in range(*s)], 'ExtractFromIndexedArraysSlice%s' % (s,))
    # replace
    ids = d.sample_ids(n, d.int(0, n))
    q = draw_packs(d, len(ids), lo=20, hi=30)
    if ids:
        r = DA.SetPartOfIndexedArrays(I(ids), a, ai, *pair(q))
        w = list(p)
        for i, t in zip(ids, q):
            w[i] = t
        eq(d, unpack(*r), w, 'SetPartOfIndexedArrays(%s,%s)' % (ids, q))
        qs = [[d.int(20, 30) for _ in p[i]] for i in ids]
        b = a.deepCopy()
        DA.SetPartOfIndexedArraysSameIdx(I(ids), b, ai, *pair(qs))
        w = list(p)
        for i, t in zip(ids, qs):
            w[i] = t
        eq(d, unpack(b, ai), w, 'SetPartOfIndexedArraysSameIdx(%s,%s)' % (ids, qs))
        k = d.below(len(ids))
        bad = [list(t) for t in qs]
        bad[k] = bad[k] + [25]
        if not raises(lambda: DA.SetPartOfIndexedArraysSameIdx(I(ids), a.deepCopy(), ai, *pair(bad))):
            d.fail('SetPartOfIndexedArraysSameIdx accepted a pack of another size: %s in %s' % (bad, p))
    eq(d, packs(a, ai), p, 'inputs after out-of-place operations')
    # remove values in packs
    rem = [d.int(0, 12) for _ in range(d.int(0, 3))]
    b, bi = a.deepCopy(), ai.deepCopy()
    ch = DA.RemoveIdsFromIndexedArrays(rem, b, bi)
    w = [[x for x in t if x not in rem] for t in p]
    eq(d, unpack(b, bi), w, 'RemoveIdsFromIndexedArrays(%s)' % rem)
    eq(d, bool(ch), w != p, 'RemoveIdsFromIndexedArrays returned flag')
    # aggregate indexes
    o = [draw_packs(d) for _ in range(d.int(1, 3))]
    r = DA.AggregateIndexes([ai] + [pair(t)[1] for t in o])
    eq(d, L(r), flat(p + [x for t in o for x in t])[1], 'AggregateIndexes')
    # per pack reduction
    if n and all(p) and hasattr(mc.DataArrayDouble, 'accumulatePerChunck'):
        x = mc.DataArrayDouble([float(v) for t in p for v in t])
        eq(d, L(x.accumulatePerChunck(ai)), [float(sum(t)) for t in p], 'accumulatePerChunck')


def sky(p):
    v, o = flat(p)
    return mc.MEDCouplingSkyLineArray(I(o), I(v))


def sk(s):
    return unpack(s.getValuesArray(), s.getIndexArray())


@check(n=60000, rule='at least two operations on at least two packs')
def skyline2(d):
    """operation sequences on a two-level skyline array"""
    p = draw_packs(d, lo=0, hi=9)
    s = sky(p)
    eq(d, sk(s), p, 'construction')
    names = []
    for _ in range(d.int(1, 6)):
        n = len(p)
        k = d.below(9)
        names.append(k)
        if k == 0 and n:
            i = d.below(n)
            s.deleteSimplePack(i)
            p = p[:i] + p[i + 1:]
        elif k == 1 and n:
            ids = d.sample_ids(n, d.int(0, n))
            s.deleteSimplePacks(I(ids))
            p = [t for i, t in enumerate(p) if i not in ids]
        elif k == 2 and n:
            i = d.below(n)
            q = draw_packs(d, 1)[0]
            s.replaceSimplePack(i, q)
            p = p[:i] + [q] + p[i + 1:]
        elif k == 3 and n:
            ids = d.sample_ids(n, d.int(1, n))
            q = draw_packs(d, len(ids))
            s.replaceSimplePacks(I(ids), [I(t) for t in q])
            p = list(p)
            for i, t in zip(ids, q):
                p[i] = t
        elif k == 4:
            t = s.uniqueNotSortedByPack()
            eq(d, sk(s), p, 'source of uniqueNotSortedByPack')
            s = t
            got = sk(s)
            eq(d, [sorted(x) for x in got], [sorted(set(x)) for x in p], 'uniqueNotSortedByPack')
            p = got
        elif k == 5:
            th = d.int(-1, 11)
            a, b = s.thresholdPerPack(th)
            eq(d, sk(a), [[x for x in t if x < th] for t in p], 'thresholdPerPack(%d) left' % th)
            eq(d, sk(b), [[x for x in t if x >= th] for t in p], 'thresholdPerPack(%d) right' % th)
        elif k == 6 and n:
            o = [draw_packs(d, n) for _ in range(d.int(1, 2))]
            s = mc.MEDCouplingSkyLineArray.AggregatePacks([s] + [sky(t) for t in o])
            p = [t + [x for q in o for x in q[i]] for i, t in enumerate(p)]
        elif k == 7 and n:
            cuts = sorted(d.int(0, n) for _ in range(d.int(0, 3)))
            ix = [0] + cuts + [n]
            g = s.groupPacks(I(ix))
            p = [[x for t in p[a:b] for x in t] for a, b in zip(ix, ix[1:])]
            s = g
        else:
            s = s.deepCopy()
        eq(d, sk(s), p, 'after operations %s' % names)
        eq(d, (s.getNumberOf(), s.getLength()), (len(p), sum(map(len, p))), 'sizes')
        if p:
            i = d.below(len(p))
            eq(d, list(s.getSimplePackSafe(i)), p[i], 'getSimplePackSafe(%d)' % i)
    d.nontrivial(len(names) > 1 and len(p) > 1)
    d.sample('%s -> %s' % (names, short(p, 200)))


def sky3(c):
    s = mc.MEDCouplingSkyLineArray()
    pk = [t for x in c for t in x]
    v, o = flat(pk)
    so = [0]
    for x in c:
        so.append(so[-1] + len(x))
    s.set3(I(so), I(o), I(v))
    return s


def sk3(s):
    p = sk(s)
    so = L(s.getSuperIndexArray())
    if so[0] != 0 or so[-1] != len(p):
        raise Violation('inconsistent super index %s for %d packs' % (so, len(p)))
    return [p[a:b] for a, b in zip(so, so[1:])]


@check(n=60000, rule='at least two operations on at least two super packs')
def skyline3(d):
    """operation sequences on a three-level skyline array"""
    n = d.int(1, 5)
    c = [draw_packs(d, d.int(0, 4), mx=4, hi=6, empty=d.bool(.3)) for _ in range(n)]
    s = sky3(c)
    eq(d, sk3(s), c, 'construction')
    ops = []
    for _ in range(d.int(1, 6)):
        k = d.below(5)
        i = d.below(n)
        q = draw_packs(d, 1, mx=4, hi=6)[0]
        ops.append(k)
        c = [list(x) for x in c]
        if k == 0 and c[i]:
            j = d.below(len(c[i]))
            s.deletePack(i, j)
            del c[i][j]
        elif k == 1:
            s.pushBackPack(i, q)
            c[i].append(q)
        elif k == 2 and c[i]:
            j = d.below(len(c[i]))
            s.replacePack(i, j, q)
            c[i][j] = q
        elif k == 3 and c[i]:
            j = d.below(len(c[i]))
            s.replaceSimplePack(sum(len(x) for x in c[:i]) + j, q)
            c[i][j] = q
        else:
            al = [t for x in c for t in x]
            w = d.choice(al) if al and d.bool(.8) else q
            si = d.sample_ids(n, d.int(1, n))
            if w:
                eq(d, list(s.findPackIds(si, w)), [c[x].index(w) if w in c[x] else -1 for x in si], 'findPackIds(%s,%s) in %s' % (si, w, c))
        eq(d, sk3(s), c, 'after operations %s' % ops)
        eq(d, (s.getSuperNumberOf(), s.getNumberOf(), s.getLength()), (n, sum(map(len, c)), sum(len(t) for x in c for t in x)), 'sizes')
        al = [t for x in c for t in x]
        if al:
            j = d.below(len(al))
            eq(d, list(s.getSimplePackSafe(j)), al[j], 'getSimplePackSafe')
    d.nontrivial(len(ops) > 1 and n > 1)
    d.sample('%s -> %s' % (ops, short(c, 200)))
    # polyhedral connectivity round trip
    poly = [[t for t in x if t] for x in c]
    if all(poly):
        s = sky3(poly)
        cc, ci = s.convertToPolyhedronConn()
        w = []
        for x in poly:
            z = []
            for f in x:
                z += ([-1] if z else []) + f
            w.append([mc.NORM_POLYHED] + z)
        eq(d, unpack(cc, ci), w, 'convertToPolyhedronConn')
        b = mc.MEDCouplingSkyLineArray.BuildFromPolyhedronConn(cc, ci)
        eq(d, sk3(b), poly, 'BuildFromPolyhedronConn(convertToPolyhedronConn)')


def draw_pd(d, n):
    """(definition, ids), ids inside range(n)"""
    if n == 0 or d.bool():
        s = (0, 0, 1) if n == 0 else slc(d, n)
        if s[2] < 0:
            s = (0, n, d.int(1, 3))
        return mc.PartDefinition.New(*s), list(range(*s))
    if d.bool(.4):
        s = slc(d, n)
        ids = list(range(*s))
    else:
        ids = [d.below(n) for _ in range(d.size(n))]
    return mc.PartDefinition.New(I(ids)), ids


def pd_ids(p):
    return L(p.toDAI())


@check(n=60000, rule='at least two composed definitions with at least 2 ids')
def part_definitions(d):
    n = d.int(0, 14)
    p, ids = draw_pd(d, n)
    names = ['%s%s' % (type(p).__name__[:5], ids)]
    for _ in range(d.int(1, 4)):
        eq(d, pd_ids(p), ids, 'toDAI of %s' % names)
        eq(d, p.getNumberOfElems(), len(ids), 'getNumberOfElems')
        k = d.below(5)
        if k == 0:
            q, qi = draw_pd(d, len(ids))
            p = q.composeWith(p)
            ids = [ids[i] for i in qi]
            names.append('o %s' % qi)
        elif k == 1:
            q, qi = draw_pd(d, n)
            r = p + q
            eq(d, pd_ids(p), ids, 'left operand of +')
            eq(d, pd_ids(q), qi, 'right operand of +')
            p, ids = r, pd_ids(r) if sorted(pd_ids(r)) == sorted(ids + qi) else ids + qi     # a sum holds the ids of both parts, in any order
            names.append('+ %s' % qi)
        elif k == 2:
            p = p.tryToSimplify()
            names.append('simplified')
        elif k == 3:
            p = p.deepCopy()
        else:
            b, m = p.isEqual(p.deepCopy())
            eq(d, bool(b), True, 'isEqual with a copy: %s' % m)
            q, qi = draw_pd(d, n)
            if qi != ids and bool(p.isEqual(q)[0]):
                d.fail('isEqual of %s and %s' % (ids, qi))
        eq(d, pd_ids(p), ids, 'after %s' % names)
        p.checkConsistencyLight()
    d.nontrivial(len(names) > 1 and len(ids) > 1)
    d.sample(' '.join(names))
    # used on an array
    a = mc.DataArrayDouble([float(i) for i in range(n)]) if n else None
    if a is not None:
        eq(d, [int(x) for x in L(a.selectPartDef(p))], ids, 'selectPartDef')
