// C04: complementarity problems
// SOURCES: math
// FLAGS: ubsan cov
#include "gen.hpp"

#include "Simu/math/Matrix.hpp"

using namespace simu;
using namespace gen;

namespace
{

void lcp(Source& s)
{
    // a P-matrix: every principal minor is positive, there is one solution
    double a = s.real(0.1, 20), d = s.real(0.1, 20);
    double b, c;
    bool   symmetric = s.boolean();
    double gm        = std::sqrt(a * d);
    b                = s.real(-0.95, 0.95) * gm;
    c                = symmetric ? b : s.real(-0.95, 0.95) * gm;
    Mat2 A{(float)a, (float)b, (float)c, (float)d};
    a = A(0, 0), b = A(0, 1), c = A(1, 0), d = A(1, 1);
    double det = a * d - b * c;
    if (det < 0.05 * a * d)
    {
        // b c too close to a d
        A(0, 1) = A(1, 0) = 0;
        b = c = 0;
        det   = a * d;
    }
    Vec2 q{s.f(-20, 20), s.f(-20, 20)};
    if (s.chance(1, 4))
        q = A * Vec2{s.f(0, 4), 0}; // on the boundary between two cases
    s.note("A = ", A, " b = ", q);

    // reference by enumeration
    double x[2] = {(q[0] * d - b * q[1]) / det, (a * q[1] - q[0] * c) / det};
    int    kind = 0;
    if (!(x[0] >= 0 && x[1] >= 0))
    {
        if (q[0] / a >= 0 && c * q[0] / a - q[1] >= 0)
            x[0] = q[0] / a, x[1] = 0, kind = 1;
        else if (q[1] / d >= 0 && b * q[1] / d - q[0] >= 0)
            x[0] = 0, x[1] = q[1] / d, kind = 2;
        else
            x[0] = x[1] = 0, kind = 3;
    }
    double nq  = std::abs(q[0]) + std::abs(q[1]) + 1e-3;
    double nA  = a + d + std::abs(b) + std::abs(c);
    double tol = 3e-5 * nA * nA / det * nq / std::min(a, d);

    LcpSolver<float> solver{A};
    PBT_CHECK(solver.isValid(), "refused");
    for (Vec2 r : {solver.solve(q), solveLcp(A, q)})
    {
        PBT_CHECK(r[0] >= 0 && r[1] >= 0, "negative solution ", r);
        PBT_CHECK(close(r[0], x[0], tol) && close(r[1], x[1], tol), "x = ", r, " instead of {", x[0], ", ", x[1], "}");
        double w0 = a * r[0] + b * r[1] - q[0], w1 = c * r[0] + d * r[1] - q[1];
        PBT_CHECK(w0 >= -tol * nA && w1 >= -tol * nA, "residual {", w0, ", ", w1, "} for x = ", r);
        PBT_CHECK((r[0] == 0 || std::abs(w0) <= tol * nA) && (r[1] == 0 || std::abs(w1) <= tol * nA),
                  "not complementary: x = ", r, " w = {", w0, ", ", w1, "}");
    }
    s.label(kind == 0 ? "both active" : kind == 1 ? "first active" : kind == 2 ? "second active" : "none active");
    s.nontrivial(b != 0 || c != 0);
}

// rank one with positive entries (two contacts at the same point): singular or almost, yet a solution always exists
void singularLcp(Source& s)
{
    double g0 = s.integer(1, 64), g1 = s.chance(1, 2) ? g0 : s.integer(1, 64), m = std::ldexp(1., (int)s.integer(-4, 4));
    Mat2   A{(float)(g0 * g0 * m), (float)(g0 * g1 * m), (float)(g0 * g1 * m), (float)(g1 * g1 * m)};
    Vec2   q{s.f(-20, 20), s.f(-20, 20)};
    if (s.chance(1, 3))
        q = Vec2{(float)g0, (float)g1} * s.f(-2, 2); // both components have the same solution
    bool almost = s.boolean();
    if (almost)
    {
        // as rounding leaves it
        double f = 1 - s.integer(-2, 8) * std::ldexp(1., -23);
        A(0, 1) = A(1, 0) = (float)(A(0, 1) * f);
        if (s.boolean())
            q = Vec2{(float)(g0 * q[0]), (float)(g1 * q[0] * (1 + s.integer(-4, 4) * std::ldexp(1., -22)))};
    }
    s.note("A = ", A, " b = ", q);
    for (Vec2 r : {LcpSolver<float>{A}.solve(q), solveLcp(A, q)})
    {
        double scale = std::abs(q[0]) + std::abs(q[1]) + 1e-3, tol = (almost ? 1e-4 : 1e-5) * scale * std::max(g0, g1) / std::min(g0, g1);
        double w0 = (double)A(0, 0) * r[0] + (double)A(0, 1) * r[1] - q[0];
        double w1 = (double)A(1, 0) * r[0] + (double)A(1, 1) * r[1] - q[1];
        PBT_CHECK(r[0] >= 0 && r[1] >= 0, "negative solution ", r);
        PBT_CHECK(w0 >= -tol && w1 >= -tol, "residual {", w0, ", ", w1, "} for x = ", r);
        PBT_CHECK((r[0] == 0 || std::abs(w0) <= tol) && (r[1] == 0 || std::abs(w1) <= tol), "not complementary: x = ", r,
                  " w = {", w0, ", ", w1, "}");
    }
    s.labelIf(almost, "almost singular");
    s.nontrivial(q[0] > 0 || q[1] > 0);
}

template <Uint32 n>
void boxedOf(Source& s)
{
    // symmetric positive definite: G G^T + shift
    double G[n][n];
    for (auto& row : G)
        for (double& g : row)
            g = s.real(-1, 1);
    double              shift = s.boolean() ? s.real(0.5, 2) : s.logUniform(0.003, 0.5); // far from diagonal
    Matrix<float, n, n> A{};
    double              normA = 0;
    for (Uint32 i = 0; i < n; ++i)
        for (Uint32 j = 0; j <= i; ++j)
        {
            double v = i == j ? shift : 0;
            for (Uint32 k = 0; k < n; ++k)
                v += G[i][k] * G[j][k];
            A(i, j) = A(j, i) = (float)v;
            normA             = std::max(normA, std::abs(v));
        }
    Vector<float, n> b{}, lo{}, hi{}, guess{};
    bool             asGuess = s.boolean();
    // rounding keeps large unknowns from settling to the last bits
    double scale = s.chance(1, 2) ? s.logUniform(1, 3e4) : 1;
    for (Uint32 i = 0; i < n; ++i)
    {
        b[i]  = (float)(scale * s.real(-4, 4));
        lo[i] = s.chance(1, 4) ? -1e6f : s.f(-2, 0);
        hi[i] = s.chance(1, 4) || scale > 1 ? 1e6f : lo[i] < -1e5f ? s.f(0, 2) : lo[i] + s.f(0, 2);
        if (asGuess)
            guess[i] = s.f(-3, 3);
    }
    float eps = s.pick({1e-4f, 1e-5f, simu::EPSILON});
    s.note("A = ", A, " b = ", b, " in ", lo, " .. ", hi, " from ", guess);

    Vector<float, n> x{};
    if (s.boolean())
    {
        x = solveInequalities(
            A, b,
            [&](const Vector<float, n>& v, Uint32 i) { return std::min(std::max(v[i], lo[i]), hi[i]); },
            guess, eps
        );
        s.label("projection of one component");
    }
    else
    {
        x = solveInequalities(
            A, b, [&](const Vector<float, n>& v) { return std::min(std::max(v, lo), hi); }, guess, eps
        );
        s.label("projection of the vector");
    }
    int    active = 0;
    double w_[n]{}, largest = 0; // rounding errors are those of the largest row
    for (Uint32 i = 0; i < n; ++i)
    {
        double mag = std::abs((double)b[i]);
        w_[i]      = -(double)b[i];
        for (Uint32 j = 0; j < n; ++j)
        {
            w_[i] += (double)A(i, j) * x[j];
            mag += std::abs((double)A(i, j) * x[j]);
        }
        largest = std::max(largest, mag);
    }
    for (Uint32 i = 0; i < n; ++i)
    {
        double w = w_[i], tol = n * normA * eps * 4 + 2e-5 * largest;
        PBT_CHECK(x[i] >= lo[i] && x[i] <= hi[i], "x[", i, "] = ", x[i], " is out of its bounds");
        if (x[i] > lo[i] && x[i] < hi[i])
            PBT_CHECK(std::abs(w) <= tol, "component ", i, " is free but its residual is ", w, ", x = ", x);
        else if (lo[i] < hi[i])
        {
            ++active;
            if (x[i] <= lo[i])
                PBT_CHECK(w >= -tol, "component ", i, " is at its minimum, its residual is ", w, ", x = ", x);
            else
                PBT_CHECK(w <= tol, "component ", i, " is at its maximum, its residual is ", w, ", x = ", x);
        }
    }
    s.labelIf(active > 0, "active bounds");
    s.nontrivial(active > 0 && active < (int)n);
}

void boxed(Source& s)
{
    switch (s.index(3))
    {
        case 0: boxedOf<2>(s); break;
        case 1: boxedOf<3>(s); break;
        default: boxedOf<5>(s); break;
    }
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C04",
         "2x2 LCPs over P-matrices (symmetric or not, including right-hand sides on the boundary between two cases) "
         "against enumeration in double precision; boxed problems over symmetric positive definite matrices of 2, 3 "
         "and 5 unknowns checked with the optimality conditions. Non-trivial: coupled unknowns (LCP), some but not "
         "all bounds active (boxed); right-hand sides of boxed problems up to 1e5.",
         {"P-matrices (LCP) and symmetric positive definite matrices (boxed), for which a solution exists and "
          "projected Gauss-Seidel converges"},
         {{"lcp", lcp, 1000000, 30000000}, {"singular", singularLcp, 200000, 5000000}, {"boxed", boxed, 400000, 8000000, 5}}}
    );
}
