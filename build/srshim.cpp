// C entry point over ShapeRecogn's linear algebra helpers (not wrapped in Python).
#include <cstring>
#include "MathOps.hxx"
using namespace MEDCoupling;
typedef std::array<double, 3> A3;

// op, x (3 n values or n values), y (3 values), q -> out; returns the number of values written
extern "C" __attribute__((visibility("default"))) long c_mathops(int op, const double *x, long n, const double *y, double q, double *out)
{
    std::vector<double> v(x, x + n);
    A3 a{0, 0, 0}, b{y[0], y[1], y[2]};
    if (n >= 3)
        a = A3{x[0], x[1], x[2]};
    auto put = [out](const double *p, size_t k) { std::memcpy(out, p, k * sizeof(double)); return (long)k; };
    auto one = [out](double r) { out[0] = r; return 1L; };
    switch (op)
    {
        case 0: { A3 r(MathOps::cross(a, b)); return put(r.data(), 3); }
        case 1: { A3 r(MathOps::normalize(a)); return put(r.data(), 3); }
        case 2: return one(MathOps::computeNorm(a));
        case 3: { auto r(MathOps::computeNorm(v)); return put(r.data(), r.size()); }
        case 4: return one(MathOps::dot(a, b));
        case 5: { auto r(MathOps::dot(v, b)); return put(r.data(), r.size()); }
        case 6: return one(MathOps::mean(v));
        case 7: { A3 r(MathOps::meanCoordinates(v)); return put(r.data(), 3); }
        case 8: { auto r(MathOps::computeCov(v)); return put(r.data(), 9); }
        case 9: { auto r(MathOps::computePCA(v)); return put(r.data(), 9); }
        case 10: { auto r(MathOps::computePCAFirstAxis(v)); return put(r.data(), 3); }
        case 11: { auto r(MathOps::computePCAThirdAxis(v)); return put(r.data(), 3); }
        case 12: return one(MathOps::computeQuantile(v, q));
        case 13: return one(MathOps::computeAngle(a, b));
        case 14: { auto r(MathOps::computeAngles(v, b)); return put(r.data(), r.size()); }
        case 15: { A3 c{x[3], x[4], x[5]}; return one(MathOps::computeOrientedAngle(b, a, c)); }
        case 16: return one(MathOps::computeVariance(v));
        case 17: { auto r(MathOps::computeBaseFromNormal(b)); return put(r.data(), 6); }
        case 18:
        case 19:
        {  // x: m x 3 matrix (column or row major) then m right-hand sides
            size_t m(n / 4);
            std::vector<double> mat(x, x + 3 * m), rhs(x + 3 * m, x + 4 * m);
            auto r(op == 18 ? MathOps::lstsq(mat, rhs) : MathOps::lstsqRow(mat, rhs));
            return put(r.data(), 3);
        }
    }
    return -1;
}
