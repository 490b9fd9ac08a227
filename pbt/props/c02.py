"""C02: integer id arrays against set / dictionary / permutation models."""
from common import *
from collections import Counter, defaultdict

W = {32: mc.DataArrayInt32, 64: mc.DataArrayInt64}


def A(vals, w=64, nc=1):
    a = W[w].New()
    if len(vals):
        a.setValues(list(map(int, vals)), len(vals) // nc, nc)
    else:
        a.alloc(0, nc)
    return a


def ivals(d, mx=12, lo=-9, hi=12, mn=0):
    n = d.size(40, mn) if d.bool(.15) else d.size(mx, mn)
    if d.bool(.3):
        lo, hi = 0, max(0, hi)
    if d.bool(.05):
        lo, hi = -2**31 + 1, 2**31 - 2
    return [d.int(lo, hi) for _ in range(n)]


def width(d):
    return d.choice([64, 64, 32])


def opt(r):
    """library rejects cleanly"""
    return r


def expect_throw(d, fn, what):
    try:
        r = fn()
    except InterpKernelException:
        return
    d.fail('%s: accepted, returned %s' % (what, short(L(r) if hasattr(r, 'getValues') else r, 200)))


@check(n=60000, rule='at least one duplicate or negative value and two non-empty operands')
def sets(d):
    """union, intersection, difference, complement, unique, membership"""
    w = width(d)
    x, y = ivals(d), ivals(d)
    a, b = A(x, w), A(y, w)
    d.nontrivial(x and y and (len(set(x)) < len(x) or min(x) < 0))
    d.sample('%s | %s' % (x, y))
    eq(d, L(a.buildUnion(b)), sorted(set(x) | set(y)), 'buildUnion')
    eq(d, L(a.buildIntersection(b)), sorted(set(x) & set(y)), 'buildIntersection')
    z = ivals(d)
    eq(d, L(W[w].BuildUnion([a, b, A(z, w)])), sorted(set(x) | set(y) | set(z)), 'BuildUnion of 3')
    eq(d, L(W[w].BuildIntersection([a, b, A(z, w)])), sorted(set(x) & set(y) & set(z)), 'BuildIntersection of 3')
    eq(d, L(a.buildUniqueNotSorted()), list(dict.fromkeys(x)), 'buildUniqueNotSorted')
    u = [v for i, v in enumerate(x) if i == 0 or x[i - 1] != v]
    eq(d, L(a.buildUnique()), u, 'buildUnique')
    ii = [i for i, v in enumerate(x) if i == 0 or x[i - 1] != v] + [len(x)]
    if x:
        eq(d, L(a.indexOfSameConsecutiveValueGroups()), ii, 'indexOfSameConsecutiveValueGroups')
    eq(d, a.hasUniqueValues(), len(set(x)) == len(x), 'hasUniqueValues')
    eq(d, L(a.getDifferentValues()), sorted(set(x)), 'getDifferentValues')
    sx, sy = sorted(set(x)), sorted(set(y) & set(x))
    eq(d, L(A(sx, w).buildSubstractionOptimized(A(sy, w))), [v for v in sx if v not in sy], 'buildSubstractionOptimized')
    eq(d, L(A(sx, w).buildSubstraction(A(sorted(set(y)), w))), [v for v in sx if v not in y], 'buildSubstraction')
    n = d.int(0, 14)
    ok = all(0 <= v < n for v in x)
    if ok:
        eq(d, L(a.buildComplement(n)), [v for v in range(n) if v not in x], 'buildComplement(%d)' % n)
        eq(d, L(a.buildComplement(n).buildComplement(n)), sorted(set(x)), 'complement of complement')
    else:
        expect_throw(d, lambda: a.buildComplement(n), 'buildComplement(%d) of %s' % (n, x))
    eq(d, a.isEqualWithoutConsideringStrAndOrder(A(d_shuffle(d, x), w)), True, 'isEqualWithoutConsideringStrAndOrder')
    eq(d, a.isEqualWithoutConsideringStrAndOrder(b), sorted(x) == sorted(y), 'isEqualWithoutConsideringStrAndOrder')


def d_shuffle(d, x):
    return [x[i] for i in d.perm(len(x))]


@check(n=60000, rule='array with at least 3 values')
def search(d):
    w = width(d)
    x = ivals(d)
    a = A(x, w)
    d.nontrivial(len(x) > 2)
    v = d.choice(x) if x and d.bool(.7) else d.int(-10, 12)
    vs = [d.choice(x) if x and d.bool(.6) else d.int(-10, 12) for _ in range(d.int(0, 4))]
    d.sample('%s search %s %s' % (x, v, vs))
    ids = [i for i, t in enumerate(x) if t == v]
    eq(d, L(a.findIdsEqual(v)), ids, 'findIdsEqual(%d)' % v)
    eq(d, L(a.findIdsNotEqual(v)), [i for i, t in enumerate(x) if t != v], 'findIdsNotEqual')
    eq(d, L(a.findIdsEqualList(A(vs, w))), [i for i, t in enumerate(x) if t in vs], 'findIdsEqualList(%s)' % vs)
    eq(d, L(a.findIdsNotEqualList(A(vs, w))), [i for i, t in enumerate(x) if t not in vs], 'findIdsNotEqualList(%s)' % vs)
    eq(d, a.findIdFirstEqual(v), ids[0] if ids else -1, 'findIdFirstEqual')
    eq(d, a.findIdFirstEqual(vs), next((i for i, t in enumerate(x) if t in vs), -1), 'findIdFirstEqual(list)')
    eq(d, a.presenceOfValue(v), bool(ids), 'presenceOfValue')
    eq(d, a.presenceOfValue(vs), any(t in vs for t in x), 'presenceOfValue(list)')
    eq(d, v in a, bool(ids), 'in')
    eq(d, a.count(v), len(ids), 'count')
    if len(x) and len(vs):
        k = next((i for i in range(len(x) - len(vs) + 1) if x[i:i + len(vs)] == vs), -1)
        eq(d, a.findIdSequence(vs), k, 'findIdSequence(%s)' % vs)
        i0 = d.below(len(x))
        sub = x[i0:i0 + d.int(1, 4)]
        k = next((i for i in range(len(x) - len(sub) + 1) if x[i:i + len(sub)] == sub), -1)
        eq(d, a.findIdSequence(sub), k, 'findIdSequence(%s)' % sub)
    lo = d.int(-10, 10)
    hi = d.int(lo, 12)
    for f, c in (('findIdsInRange', lambda t: lo <= t < hi), ('findIdsNotInRange', lambda t: not lo <= t < hi)):
        if hasattr(a, f):
            eq(d, L(getattr(a, f)(lo, hi)), [i for i, t in enumerate(x) if c(t)], f)
    for f, c in (('findIdsGreaterOrEqualTo', lambda t: t >= v), ('findIdsGreaterThan', lambda t: t > v), ('findIdsLowerOrEqualTo', lambda t: t <= v),
                 ('findIdsLowerThan', lambda t: t < v)):
        if hasattr(a, f):
            eq(d, L(getattr(a, f)(v)), [i for i, t in enumerate(x) if c(t)], f)
    if hasattr(a, 'findIdsStricltyNegative'):
        eq(d, L(a.findIdsStricltyNegative()), [i for i, t in enumerate(x) if t < 0], 'findIdsStricltyNegative')
    if all(lo <= t < hi for t in x):
        eq(d, a.checkAllIdsInRange(lo, hi), x == list(range(len(x))), 'checkAllIdsInRange(%d,%d)' % (lo, hi))
    else:
        expect_throw(d, lambda: a.checkAllIdsInRange(lo, hi), 'checkAllIdsInRange(%d,%d) of %s' % (lo, hi, x))
    # occurrence rank
    seen, rk = Counter(), []
    for t in x:
        rk.append(seen[t])
        seen[t] += 1
    eq(d, L(a.occurenceRankInThis()), rk, 'occurenceRankInThis')
    # last position of each
    if x:
        q = [d.choice(x) for _ in range(d.size(8))]
        r = L(a.findIdForEach(A(q, w)))
        eq(d, r, [max(i for i, t in enumerate(x) if t == u) for u in q], 'findIdForEach(%s)' % q)
        miss = 100
        expect_throw(d, lambda: a.findIdForEach(A(q + [miss], w)), 'findIdForEach with an absent value')
    # tuples
    nc = d.int(1, 3)
    t = [d.int(0, 3) for _ in range(nc * d.size(8))]
    ta = A(t, w, nc)
    rows = [t[i:i + nc] for i in range(0, len(t), nc)]
    q = d.choice(rows) if rows and d.bool(.7) else [d.int(0, 3) for _ in range(nc)]
    eq(d, L(ta.findIdsEqualTuple(q)), [i for i, r in enumerate(rows) if r == q], 'findIdsEqualTuple')
    if rows:
        eq(d, ta.findIdFirstEqualTuple(q), next((i for i, r in enumerate(rows) if r == q), -1), 'findIdFirstEqualTuple')
        eq(d, ta.presenceOfTuple(q), q in rows, 'presenceOfTuple')
    # values searched per tuple
    if rows:
        hint = [d.below(len(rows)) for _ in range(d.size(6, 1))]
        vals = [d.choice(rows[h]) for h in hint]
        got = L(ta.locateComponentId(A(vals, w), I(hint)))
        for g, h, u in zip(got, hint, vals):
            if not (0 <= g < nc and rows[h][g] == u):
                d.fail('locateComponentId: %s for value %d of %s' % (g, u, rows[h]))


@check(n=60000, rule='permutation of at least 4 elements')
def permutations(d):
    w = 64
    n = d.size(30 if d.bool(.2) else 10)
    p, q = d.perm(n), d.perm(n)
    P, Q = A(p, w), A(q, w)
    d.nontrivial(n > 3)
    d.sample('%s %s' % (p, q))
    inv = [0] * n
    for i, v in enumerate(p):
        inv[v] = i
    eq(d, L(P.invertArrayO2N2N2O(n)), inv, 'invertArrayO2N2N2O')
    eq(d, L(P.invertArrayN2O2O2N(n)), inv, 'invertArrayN2O2O2N')
    eq(d, L(P.invertArrayO2N2N2O(n).invertArrayN2O2O2N(n)), p, 'inverse of inverse')
    x = [v * 7 - 11 for v in d_shuffle(d, list(range(n)))]
    X = A(x, w)
    s = X.checkAndPreparePermutation()
    rank = {v: i for i, v in enumerate(sorted(x))}
    eq(d, L(s), [rank[v] for v in x], 'checkAndPreparePermutation')
    eq(d, L(X.renumber(s)), sorted(x), 'renumber(checkAndPreparePermutation)')
    eq(d, L(mc.DataArrayInt64.CheckAndPreparePermutation(X)), [rank[v] for v in x], 'CheckAndPreparePermutation')
    if n:
        dup = x + [d.choice(x)]
        dup = d_shuffle(d, dup)
        expect_throw(d, lambda: A(dup, w).checkAndPreparePermutation(), 'checkAndPreparePermutation of %s' % dup)
    # composition
    R = P.selectByTupleId(Q)          # R[i]=p[q[i]]
    eq(d, L(X.renumberR(P).renumberR(Q)), L(X.renumberR(R)), 'renumberR composition')
    C = Q.deepCopy()
    C.transformWithIndArr(P)          # C[i]=p[q[i]]
    eq(d, L(C), [p[v] for v in q], 'transformWithIndArr')
    eq(d, L(X.renumber(Q).renumber(P)), L(X.renumber(C)), 'renumber composition')
    eq(d, L(X.renumber(P).renumberR(P)), x, 'renumberR undoes renumber')
    # permutations between arrays
    y = d_shuffle(d, x)
    Y = A(y, w)
    r = mc.DataArrayInt64.FindPermutationFromFirstToSecond(X, Y)
    eq(d, L(X.renumber(r)), y, 'FindPermutationFromFirstToSecond')
    r = X.buildPermutationArr(Y)
    eq(d, [x[i] for i in L(r)], y, 'buildPermutationArr') if n else None
    eq(d, L(X.indicesOfSubPart(A(y[:n // 2], w))), [x.index(v) for v in y[:n // 2]], 'indicesOfSubPart')
    if n:
        bad = list(y)
        bad[d.below(n)] = 1000
        expect_throw(d, lambda: mc.DataArrayInt64.FindPermutationFromFirstToSecond(X, A(bad, w)), 'FindPermutationFromFirstToSecond(%s,%s)' % (x, bad))
        expect_throw(d, lambda: X.buildPermutationArr(A(bad, w)), 'buildPermutationArr(%s -> %s)' % (x, bad))
        expect_throw(d, lambda: X.indicesOfSubPart(A(bad, w)), 'indicesOfSubPart with absent value')
        if n > 1:
            # duplicated value instead of another one
            i, j = d.sample_ids(n, 2)
            dd = list(y)
            dd[i] = dd[j]
            expect_throw(d, lambda: mc.DataArrayInt64.FindPermutationFromFirstToSecond(X, A(dd, w)), 'FindPermutationFromFirstToSecond(%s,%s)' % (x, dd))
            expect_throw(d, lambda: mc.DataArrayInt64.FindPermutationFromFirstToSecondDuplicate(X, A(dd, w)), 'FindPermutationFromFirstToSecondDuplicate(%s,%s)' % (x, dd))
    xd = [d.int(-3, 3) for _ in range(n)]
    yd = d_shuffle(d, xd)
    r = mc.DataArrayInt64.FindPermutationFromFirstToSecondDuplicate(A(xd, w), A(yd, w))
    eq(d, sorted(L(r)), list(range(n)), 'FindPermutationFromFirstToSecondDuplicate is a permutation')
    eq(d, L(A(xd, w).renumber(r)), yd, 'FindPermutationFromFirstToSecondDuplicate')
    # levels
    lv = [d.int(0, 4) for _ in range(n)]
    if n:
        r = L(A(lv, w).buildPermArrPerLevel())
        exp = [0] * n
        for k, i in enumerate(sorted(range(n), key=lambda i: (lv[i], i))):
            exp[i] = k
        eq(d, r, exp, 'buildPermArrPerLevel of %s' % lv)
    # iota and range recognition
    eq(d, P.isIota(n), p == list(range(n)), 'isIota')
    if n > 1:
        g = d.choice([-3, -1, 1, 2])
        rg = [5 + g * i for i in range(n)]
        ok, sl = isr(A(rg, w).isRange())
        if not ok or list(range(*sl)) != rg:
            d.fail('isRange of %s: %s' % (rg, sl))
        ok, sl = isr(P.isRange())
        eq(d, ok, len(set(b - a for a, b in zip(p, p[1:]))) == 1, 'isRange of %s' % p)
        if ok:
            eq(d, list(range(*sl)), p, 'isRange')


def isr(r):
    sl = r[1]
    return r[0], (sl.start, sl.stop, sl.step) if isinstance(sl, slice) else tuple(sl) if sl is not None else None


@check(n=40000, rule='surjection with at least one merged pair')
def reductions(d):
    """surjective renumberings"""
    w = 64
    n = d.size(24 if d.bool(.2) else 9, 1)
    k = d.int(1, n)
    s = list(range(k)) + [d.below(k) for _ in range(n - k)]
    s = d_shuffle(d, s)
    S = A(s, w)
    d.nontrivial(k < n)
    d.sample('surjection %s onto %d' % (s, k))
    arr, arrI = S.changeSurjectiveFormat(k)
    eq(d, packs(arr, arrI), [[i for i, v in enumerate(s) if v == j] for j in range(k)], 'changeSurjectiveFormat')
    eq(d, L(S.invertArrayO2N2N2OBis(k)), [s.index(j) for j in range(k)], 'invertArrayO2N2N2OBis')
    eq(d, L(S.invertArrayO2N2N2O(k)), [max(i for i, v in enumerate(s) if v == j) for j in range(k)], 'invertArrayO2N2N2O of a surjection')
    # N2O optimised
    n2o = d.sample_ids(2 * n, d.int(0, n))
    inv = A(n2o, w).invertArrayN2O2O2N(2 * n)
    eq(d, L(inv), [n2o.index(i) if i in n2o else -1 for i in range(2 * n)], 'invertArrayN2O2O2N of a partial map')
    # groups of merged tuples to old->new
    groups, free = [], d.perm(n)
    while len(free) > 1 and d.bool(.7):
        g = d.int(2, min(4, len(free)))
        groups.append(sorted(free[:g]))
        free = free[g:]
    groups.sort()
    c = [v for g in groups for v in g]
    ci = [0]
    for g in groups:
        ci.append(ci[-1] + len(g))
    o2n, nn = mc.DataArrayInt64.ConvertIndexArrayToO2N(n, A(c, w), A(ci, w))
    rep = list(range(n))
    for g in groups:
        for v in g:
            rep[v] = g[0]
    fresh, exp = {}, []
    for i in range(n):
        fresh.setdefault(rep[i], len(fresh))
        exp.append(fresh[rep[i]])
    eq(d, L(o2n), exp, 'ConvertIndexArrayToO2N(%d,%s)' % (n, groups))
    eq(d, nn, len(fresh), 'ConvertIndexArrayToO2N new size')
    # partition from groups
    gr = [sorted(d.sample_ids(n, d.int(0, n))) for _ in range(d.int(1, 4))]
    fam, fog = mc.DataArrayInt64.MakePartition([A(g, w) for g in gr], n)
    fam = L(fam)
    key = [tuple(j for j, g in enumerate(gr) if i in g) for i in range(n)]
    for i in range(n):
        for j in range(i):
            if (fam[i] == fam[j]) != (key[i] == key[j]):
                d.fail('MakePartition(%s): elements %d,%d groups %s %s families %s' % (gr, j, i, key[j], key[i], fam))
    for j, g in enumerate(gr):
        eq(d, sorted(i for i in range(n) if fam[i] in list(fog[j])), g, 'MakePartition: families of group %d' % j)
    # pairs
    pr = d_shuffle(d, [t for t in d_pairs(d, n)])
    if pr:
        a2, a2i = A([v for t in pr for v in t], w, 2).fromListOfPairsToIndexArray()
        u = ref.UF(n)
        for a, b in pr:
            u.union(a, b)
        cl = defaultdict(list)
        inp = set(v for t in pr for v in t)
        for v in sorted(inp):
            cl[u.find(v)].append(v)
        eq(d, sorted(map(sorted, packs(a2, a2i))), sorted(cl.values()), 'fromListOfPairsToIndexArray(%s)' % pr)
    # same values
    x = [d.int(-2, 3) for _ in range(n)]
    ids, vals = A(x, w).partitionByDifferentValues()
    eq(d, sorted(list(vals)), sorted(set(x)), 'partitionByDifferentValues values')
    for i, v in zip(ids, vals):
        eq(d, L(i), [k for k, t in enumerate(x) if t == v], 'partitionByDifferentValues ids of %d' % v)


def d_pairs(d, n):
    out, seen = [], set()
    for _ in range(d.int(0, 6)):
        if n < 2:
            break
        a, b = d.sample_ids(n, 2)
        if (min(a, b), max(a, b)) not in seen:
            seen.add((min(a, b), max(a, b)))
            out.append((a, b))
    return out


@check(n=40000, rule='at least 3 values')
def offsets(d):
    w = width(d)
    x = [d.int(0, 5) for _ in range(d.size(12))]
    d.nontrivial(len(x) > 2)
    d.sample(str(x))
    a = A(x, w)
    f = a.deepCopy()
    f.computeOffsetsFull()
    off = [sum(x[:i]) for i in range(len(x) + 1)]
    eq(d, L(f), off, 'computeOffsetsFull')
    eq(d, L(f.deltaShiftIndex()), x, 'deltaShiftIndex(computeOffsetsFull)')
    g = a.deepCopy()
    g.computeOffsets()
    eq(d, L(g), off[:-1], 'computeOffsets')
    # explicit ids of ranges
    o64 = A(off, w)
    sel = [d.below(len(x)) for _ in range(d.size(6))] if x else []
    eq(d, L(A(sel, w).buildExplicitArrByRanges(o64)), [v for s in sel for v in range(off[s], off[s + 1])], 'buildExplicitArrByRanges')
    if x:
        b = d.below(len(x))
        e = d.int(b, len(x))
        st = d.int(1, 3)
        got = L(o64.buildExplicitArrOfSliceOnScaledArr(slice(b, e, st))) if hasattr(o64, 'buildExplicitArrOfSliceOnScaledArr') else None
        if got is not None:
            eq(d, got, [s for s in range(b, e, st) for v in range(off[s], off[s + 1])], 'buildExplicitArrOfSliceOnScaledArr(%d:%d:%d)' % (b, e, st))
    # ranges
    cut = sorted(d.sample_ids(30, d.int(2, 6)))
    rg = list(zip(cut, cut[1:]))
    order = d.perm(len(rg))
    rg = [rg[i] for i in order]
    v = [d.int(cut[0], cut[-1] - 1) for _ in range(d.size(8))]
    R = A([t for r in rg for t in r], w, 2)
    which = [next(i for i, r in enumerate(rg) if r[0] <= t < r[1]) for t in v]
    eq(d, L(A(v, w).findRangeIdForEachTuple(R)), which, 'findRangeIdForEachTuple')
    eq(d, L(A(v, w).findIdInRangeForEachTuple(R)), [t - rg[i][0] for t, i in zip(v, which)], 'findIdInRangeForEachTuple')
    expect_throw(d, lambda: A(v + [cut[-1]], w).findRangeIdForEachTuple(R), 'findRangeIdForEachTuple outside the ranges')
    # ranges entirely covered
    inc = sorted(set(off))
    if len(inc) > 1:
        ids = sorted(d.subset(inc[-1] + 2, .75))
        got = A(inc, w).findIdsRangesInListOfIds(A(ids, w))
        full = [i for i in range(len(inc) - 1) if all(t in ids for t in range(inc[i], inc[i + 1]))]
        eq(d, L(got[0]), full, 'findIdsRangesInListOfIds(%s,%s) ranges' % (inc, ids))
        eq(d, L(got[1]), [t for i in full for t in range(inc[i], inc[i + 1])], 'findIdsRangesInListOfIds ids')
    # splitByValueRange
    if len(cut) > 1:
        c, idr, used = A(v, w).splitByValueRange(cut)
        wh = [max(i for i in range(len(cut)) if cut[i] <= t) for t in v]
        us = sorted(set(wh))
        eq(d, L(used), us, 'splitByValueRange casts used')
        eq(d, L(c), wh, 'splitByValueRange casts')
        eq(d, L(idr), [t - cut[i] for t, i in zip(v, wh)], 'splitByValueRange ids in cast')
    # balanced slices
    if x:
        k = d.int(1, 4)
        sl = A(x, w).splitInBalancedSlices(k)
        if len(sl) != k:
            d.fail('splitInBalancedSlices: %d slices' % len(sl))
        cov = [i for s in sl for i in range(s.start, s.stop, s.step or 1)]
        eq(d, cov, list(range(len(x))), 'splitInBalancedSlices(%d) of %s covers' % (k, x))
    u = [d.int(0, 1)] * len(x)
    eq(d, A(u, w).isUniform(u[0]) if u else True, True, 'isUniform')
    if x:
        eq(d, a.isUniform(x[0]), len(set(x)) == 1, 'isUniform')
        if len(set(x)) == 1:
            eq(d, a.checkUniformAndGuess(), x[0], 'checkUniformAndGuess')
        else:
            expect_throw(d, a.checkUniformAndGuess, 'checkUniformAndGuess of %s' % x)
        inc = d.bool()
        s = sorted(x, reverse=not inc)
        for y in (x, s):
            mono = all(p <= q if inc else p >= q for p, q in zip(y, y[1:]))
            strict = all(p < q if inc else p > q for p, q in zip(y, y[1:]))
            eq(d, A(y, w).isMonotonic(inc), mono, 'isMonotonic(%s) of %s' % (inc, y))
            eq(d, A(y, w).isStrictlyMonotonic(inc), strict, 'isStrictlyMonotonic(%s) of %s' % (inc, y))
            eq(d, raises(lambda: A(y, w).checkMonotonic(inc)), not mono, 'checkMonotonic')
            eq(d, raises(lambda: A(y, w).checkStrictlyMonotonic(inc)), not strict, 'checkStrictlyMonotonic')


@check(n=30000, rule='chain of at least 3 pairs, shuffled or flipped')
def chains(d):
    """pairs (edges) put in sequence"""
    n = d.int(2, 9)
    nodes = d.sample_ids(20, n)
    pr = list(zip(nodes, nodes[1:]))
    flip = [d.bool(.4) for _ in pr]
    d.nontrivial(len(pr) > 2)
    fl = [(b, a) if f else (a, b) for (a, b), f in zip(pr, flip)]
    a = A([v for t in fl for v in t], 64, 2)
    d.sample(str(fl))
    if len(pr) > 1:
        a.sortEachPairToMakeALinkedList()
        got = T(a)
        if got != pr and got != [(p, q) for p, q in pr]:
            d.fail('sortEachPairToMakeALinkedList(%s): %s' % (fl, got))
        eq(d, L(a.fromLinkedListOfPairToList()), nodes, 'fromLinkedListOfPairToList')
    # any order
    sh = [fl[i] for i in d.perm(len(fl))]
    b = A([v for t in sh for v in t], 64, 2)
    b.sortToHaveConsecutivePairs()
    got = T(b)
    seq = [got[0][0]] + [t[1] for t in got]
    if any(p[1] != q[0] for p, q in zip(got, got[1:])) or (seq != nodes and seq != nodes[::-1]):
        d.fail('sortToHaveConsecutivePairs(%s): %s' % (sh, got))
    # several chains
    k = d.int(1, 3)
    allp, cs = [], []
    pool = d.sample_ids(30, 12)
    for c in range(k):
        m = d.int(2, 4)
        ns, pool = pool[:m], pool[m:]
        cs.append(ns)
        allp += list(zip(ns, ns[1:]))
    allp = [(b, a) if d.bool(.3) else (a, b) for a, b in allp]
    allp = d_shuffle(d, allp)
    parts = A([v for t in allp for v in t], 64, 2).splitPairsIntoChains()
    res = []
    for p in parts:
        t = T(p)
        p.sortToHaveConsecutivePairs()
        t = T(p)
        res.append([t[0][0]] + [u[1] for u in t])
    norm = lambda c: min(c, c[::-1])
    eq(d, sorted(norm(r) for r in res), sorted(norm(c) for c in cs), 'splitPairsIntoChains(%s)' % allp)


@check(n=30000, rule='at least 2 values')
def integer_ops(d):
    """scalar integer operations, comparison chains, histogram and type conversions"""
    w = width(d)
    x = ivals(d, lo=-30, hi=30)
    a = A(x, w)
    d.nontrivial(len(x) > 1)
    big = bool(x) and max(abs(v) for v in x) > 1000
    k = d.choice([1, 2, 3, 5, 7])
    if x and not big:
        pos = [abs(v) for v in x]
        eq(d, L(A(pos, w) % k), [v % k for v in pos], 'mod')
        b = A(pos, w)
        b.applyModulus(k)
        eq(d, L(b), [v % k for v in pos], 'applyModulus')
        b = A([v + 1 for v in pos], w)
        b.applyRModulus(17)
        eq(d, L(b), [17 % (v + 1) for v in pos], 'applyRModulus')
        b = A(pos, w)
        b.applyDivideBy(k)
        eq(d, L(b), [v // k for v in pos], 'applyDivideBy')
        b = A([v + 1 for v in pos], w)
        b.applyInv(60)
        eq(d, L(b), [60 // (v + 1) for v in pos], 'applyInv')
        b = A(pos, w)
        b.applyPow(2)
        eq(d, L(b), [v * v for v in pos], 'applyPow')
        b = A([v % 5 for v in pos], w)
        b.applyRPow(2)
        eq(d, L(b), [2 ** (v % 5) for v in pos], 'applyRPow')
        b = A(x, w)
        b.applyLin(k, -3)
        eq(d, L(b), [k * v - 3 for v in x], 'applyLin')
        b = A(x, w)
        o = d.choice(x)
        b.changeValue(o, 99)
        eq(d, L(b), [99 if v == o else v for v in x], 'changeValue')
        eq(d, L(a + a), [2 * v for v in x], '+')
        eq(d, L(a - 2 * a), [-v for v in x], '-')
        eq(d, L(a * a), [v * v for v in x], '*')
        eq(d, L(-a), [-v for v in x], 'neg')
        eq(d, L(a.computeAbs()), [abs(v) for v in x], 'abs')
        eq(d, a.accumulate()[0] if isinstance(a.accumulate(), (list, tuple)) else a.accumulate(), sum(x), 'accumulate')
        eq(d, a.accumulate(0), sum(x), 'accumulate(0)')
    if x:
        eq(d, list(a.getMaxValue()), [max(x), x.index(max(x))], 'getMaxValue')
        eq(d, list(a.getMinValue()), [min(x), x.index(min(x))], 'getMinValue')
        eq(d, a.getMaxValueInArray(), max(x), 'getMaxValueInArray')
        eq(d, a.getMinValueInArray(), min(x), 'getMinValueInArray')
        eq(d, tuple(a.getMinMaxValues()), (min(x), max(x)), 'getMinMaxValues')
    if w == 64:
        eq(d, L(a.convertToInt32Arr()), x, 'convertToInt32Arr')
    else:
        eq(d, L(a.convertToInt64Arr()), x, 'convertToInt64Arr') if hasattr(a, 'convertToInt64Arr') else None
    eq(d, [int(v) for v in L(a.convertToDblArr())], x, 'convertToDblArr')
    b = a.deepCopy()
    eq(d, b.getHashCode(), a.getHashCode(), 'hash of equal arrays')
    rg = (d.int(-5, 5), d.int(-5, 15), d.int(1, 3))
    if rg[1] >= rg[0]:
        eq(d, L(W[w].Range(*rg)), list(range(*rg)), 'Range%s' % (rg,))
    # list the values of an array in a target numbering
    if x and not big:
        tgt = [] if w == 32 else [d.int(-50, 50) for _ in range(max(x) + 1)] if max(x) >= 0 else []
        if tgt and min(x) >= 0:
            b = a.deepCopy()
            b.transformWithIndArr(A(tgt, w))
            eq(d, L(b), [tgt[v] for v in x], 'transformWithIndArr')
        elif tgt:
            expect_throw(d, lambda: a.deepCopy().transformWithIndArr(A(tgt, w)), 'transformWithIndArr with negative ids %s' % x)


@check(n=15000, rule='at least one fused group')
def partition_reduction(d):
    """forThisAsPartitionBuildReduction on a partition and a fusion"""
    n = d.int(2, 12)
    fam = [d.int(-3, 2) for _ in range(n)]
    free, groups = d.perm(n), []
    while len(free) > 1 and d.bool(.75):
        g = d.int(2, min(3, len(free)))
        groups.append(sorted(free[:g]))
        free = free[g:]
    groups.sort()
    d.nontrivial(bool(groups))
    c = [v for g in groups for v in g]
    ci = [0]
    for g in groups:
        ci.append(ci[-1] + len(g))
    ret, ptm, ptmi = A(fam).forThisAsPartitionBuildReduction(A(c), A(ci))
    d.sample('families %s fused %s' % (fam, groups))
    o2n, nn = mc.DataArrayInt64.ConvertIndexArrayToO2N(n, A(c), A(ci))
    o2n = L(o2n)
    r = L(ret)
    if len(r) != nn:
        d.fail('reduced partition has %d entries, expected %d' % (len(r), nn))
    olds = [[i for i in range(n) if o2n[i] == k] for k in range(nn)]
    # every reduced id denotes the set of families of the entities fused into it
    code = {}
    for t in packs(ptm, ptmi):
        if t[0] in code:
            d.fail('reduced id %d described twice: %s' % (t[0], packs(ptm, ptmi)))
        code[t[0]] = sorted(set(t[1:]))
    for k in range(nn):
        eq(d, code.get(r[k], [r[k]]), sorted(set(fam[i] for i in olds[k])), 'families of the entities %s fused as reduced entity %d (%s; described %s)' % (olds[k], k, r, code))
