// C entry points over the header-only search trees, called through ctypes by the generated-input checks.
// (std headers missing from the trees' own includes come first)
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <memory>
#include <set>
#include <stack>
#include <vector>
#include "MCIdType.hxx"
#include "BBTree.txx"
#include "BBTreePts.txx"
#include "BBTreeDst.txx"
#include "BBTreeDiscrete.txx"
#include "BBTreeClosest.txx"
#include "BBTreeStandAlone.txx"

typedef std::vector<mcIdType> Ids;

static long put(int64_t *out, long cap, long pos, const Ids &v)
{
    if (pos + 1 + (long)v.size() > cap)
        return -1;
    out[pos++] = (int64_t)v.size();
    for (mcIdType x : v) out[pos++] = x;
    return pos;
}

template <int D>
static long run(int kind, const double *data, mcIdType n, double eps, const double *q, long nq, int64_t *out, long cap, double *dst)
{
    long pos(0);
    std::unique_ptr<BBTree<D, mcIdType> > t;
    std::unique_ptr<BBTreePts<D, mcIdType> > tp;
    std::unique_ptr<BBTreeDst<D> > td;
    std::unique_ptr<BBTreeClosest<D, mcIdType> > tc;
    std::unique_ptr<BBTreeClosestStandAlone<D, mcIdType> > ts;
    if (kind <= 2)
        t.reset(new BBTree<D, mcIdType>(data, nullptr, 0, n, eps));
    else if (kind <= 4)
        tp.reset(new BBTreePts<D, mcIdType>(data, nullptr, 0, n, eps));
    else if (kind == 5)
        td.reset(new BBTreeDst<D>(data, nullptr, 0, n));
    else if (kind == 6)
        tc.reset(new BBTreeClosest<D, mcIdType>(data, nullptr, 0, n));
    else if (kind == 8)
    {  // leaves of a tree sent elsewhere, one after the other
        tc.reset(new BBTreeClosest<D, mcIdType>(data, nullptr, 0, n));
        std::vector<bool> st;
        std::vector<std::array<double, 2 * D> > bx;
        Ids el;
        tc->serialize(st, bx, el);
        BBTreeClosest<D, mcIdType> back(BBTreeClosest<D, mcIdType>::Deserialize(st, bx, el));
        for (const auto &leaf : back)
        {
            const BBTreeClosest<D, mcIdType> &lf(static_cast<const BBTreeClosest<D, mcIdType> &>(leaf));
            if ((pos = put(out, cap, pos, lf.getElements())) < 0)
                return -1;
        }
        return pos;
    }
    else if (kind == 7)
    {
        std::unique_ptr<double[]> c(new double[2 * D * n]);
        std::copy(data, data + 2 * D * n, c.get());
        ts.reset(new BBTreeClosestStandAlone<D, mcIdType>(std::move(c), n));
    }
    for (long i = 0; i < nq; i++)
    {
        Ids r;
        const double *p(q + i * (kind == 0 || kind == 1 ? 2 * D : D));
        dst[i] = 0.;
        switch (kind)
        {
            case 0:
                t->getIntersectingElems(p, r);
                break;
            case 1:
                r.push_back(t->getNbOfIntersectingElems(p));
                break;
            case 2:
                t->getElementsAroundPoint(p, r);
                break;
            case 3:
                tp->getElementsAroundPoint(p, r);
                break;
            case 4:
            {
                mcIdType e(-1);
                dst[i] = tp->getElementsAroundPoint2(p, eps, e);
                if (dst[i] != std::numeric_limits<double>::max())
                    r.push_back(e);
                break;
            }
            case 5:
            {
                double m(std::numeric_limits<double>::max());
                td->getMinDistanceOfMax(p, m);
                dst[i] = m;
                td->getElemsWhoseMinDistanceToPtSmallerThan(p, m, r);
                break;
            }
            case 6:
                tc->getClosestCandidates(p, r);
                break;
            case 7:
                ts->getClosestCandidates(p, r);
                break;
        }
        if ((pos = put(out, cap, pos, r)) < 0)
            return -1;
    }
    return pos;
}

template <int D>
static long discrete(const int64_t *data, mcIdType n, const int64_t *q, long nq, int64_t *out, long cap)
{
    BBTreeDiscrete<D, int64_t, mcIdType> t(data, nullptr, 0, n);
    long pos(0);
    for (long i = 0; i < nq; i++)
    {
        Ids r;
        t.getIntersectingElems(q + i * D, r);
        if ((pos = put(out, cap, pos, r)) < 0)
            return -1;
    }
    return pos;
}

extern "C"
{
    long c_tree(int dim, int kind, const double *data, long n, double eps, const double *q, long nq, int64_t *out, long cap, double *dst)
    {
        switch (dim)
        {
            case 1: return run<1>(kind, data, n, eps, q, nq, out, cap, dst);
            case 2: return run<2>(kind, data, n, eps, q, nq, out, cap, dst);
            case 3: return run<3>(kind, data, n, eps, q, nq, out, cap, dst);
        }
        return -2;
    }
    long c_discrete(int dim, const int64_t *data, long n, const int64_t *q, long nq, int64_t *out, long cap)
    {
        switch (dim)
        {
            case 1: return discrete<1>(data, n, q, nq, out, cap);
            case 2: return discrete<2>(data, n, q, nq, out, cap);
            case 3: return discrete<3>(data, n, q, nq, out, cap);
            case 4: return discrete<4>(data, n, q, nq, out, cap);
        }
        return -2;
    }
}
