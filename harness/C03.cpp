// C03: linear systems
// SOURCES: math
// FLAGS: ubsan cov
#include "gen.hpp"

#include "Simu/math/Matrix.hpp"

using namespace simu;
using namespace gen;

namespace
{

typedef std::vector<std::vector<double>> DM;

// Q D R with Q, R products of plane rotations and D with a known spread
DM conditioned(Source& s, int n, double& cond)
{
    DM     a((std::size_t)n, std::vector<double>((std::size_t)n, 0.0));
    double scale  = s.pick({1.0, 0.01, 100.0, 5.0, 1e-8, 1e-6, 1e-4, 1e4, 1e7});
    double spread = s.pick({1.0, 4.0, 30.0});
    double lo = 1e300, hi = 0;
    for (int i = 0; i < n; ++i)
    {
        double d               = scale * s.real(1, spread) * (s.boolean() ? -1 : 1);
        a[(std::size_t)i][(std::size_t)i] = d;
        lo                     = std::min(lo, std::abs(d));
        hi                     = std::max(hi, std::abs(d));
    }
    cond      = hi / lo;
    long turns = s.integer(0, 2 * n);
    for (long t = 0; t < turns; ++t)
    {
        std::size_t p = s.index((std::size_t)n), q = s.index((std::size_t)n);
        if (p == q)
            continue;
        double th = s.real(-3, 3), c = std::cos(th), si = std::sin(th);
        bool   left = s.boolean();
        for (std::size_t k = 0; k < (std::size_t)n; ++k)
        {
            double& x = left ? a[p][k] : a[k][p];
            double& y = left ? a[q][k] : a[k][q];
            double  u = c * x - si * y, v = si * x + c * y;
            x = u;
            y = v;
        }
    }
    return a;
}

template <class T, class U, Uint32 n>
void regular(Source& s)
{
    double          cond = 1;
    Matrix<T, n, n> A{};
    double          normA = 0;
    DM              d     = conditioned(s, (int)n, cond);
    for (Uint32 i = 0; i < n; ++i)
        for (Uint32 j = 0; j < n; ++j)
        {
            A(i, j) = (T)d[i][j];
            normA   = std::max(normA, std::abs((double)A(i, j)));
        }
    Vector<U, n> b{};
    double       normB = 0;
    for (Uint32 i = 0; i < n; ++i)
    {
        b[i]  = std::is_same_v<U, Int32> ? (U)s.integer(-20, 20) : (U)s.real(-20, 20);
        normB = std::max(normB, std::abs((double)b[i]));
    }
    s.note("A = ", A, " b = ", b, " condition <= ", cond);

    double eps = std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16;
    if (std::is_same_v<T, double> && std::is_same_v<U, float>)
        eps = 2.3e-16;
    double tol = 40 * n * n * eps * cond;

    Solver<T, n> solver{A};
    PBT_CHECK(solver.isValid(), "a matrix of full rank is refused");
    auto orig = solver.original();
    for (Uint32 i = 0; i < n * n; ++i)
        PBT_CHECK(close(orig[i], A[i], tol * normA), "original() differs at ", i, ": ", orig[i], " vs ", A[i]);

    auto check = [&](auto x, const char* what) {
        double normX = 0;
        for (Uint32 i = 0; i < n; ++i)
        {
            PBT_CHECK(std::isfinite((double)x[i]), what, ": not finite");
            normX = std::max(normX, std::abs((double)x[i]));
        }
        for (Uint32 i = 0; i < n; ++i)
        {
            double r = -(double)b[i];
            for (Uint32 j = 0; j < n; ++j)
                r += (double)A(i, j) * (double)x[j];
            PBT_CHECK(std::abs(r) <= tol * (normA * normX + normB), what, ": residual ", r, " in row ", i, ", x = ", x);
        }
    };
    check(solver.solve(b), "Solver::solve");
    check(simu::solve(A, b), "solve");

    auto inv = simu::invert(A);
    double normI = 0;
    for (Uint32 i = 0; i < n * n; ++i)
        normI = std::max(normI, std::abs((double)inv[i]));
    for (Uint32 i = 0; i < n; ++i)
        for (Uint32 j = 0; j < n; ++j)
        {
            double l = 0, r = 0;
            for (Uint32 k = 0; k < n; ++k)
            {
                l += (double)inv(i, k) * (double)A(k, j);
                r += (double)A(i, k) * (double)inv(k, j);
            }
            double id = i == j;
            PBT_CHECK(close(l, id, tol * n * normA * normI), "A^-1 A at ", i, ", ", j, " is ", l);
            PBT_CHECK(close(r, id, tol * n * normA * normI), "A A^-1 at ", i, ", ", j, " is ", r);
        }
    s.label(pbt::cat("n=", n));
    bool offDiag = false;
    for (Uint32 i = 0; i < n; ++i)
        for (Uint32 j = 0; j < n; ++j)
            offDiag = offDiag || (i != j && A(i, j) != 0);
    s.nontrivial(offDiag && normB > 0);
}

void solveRegular(Source& s)
{
    switch (s.index(7))
    {
        case 0: regular<float, float, 2>(s); break;
        case 1: regular<float, float, 3>(s); break;
        case 2: regular<float, float, 4>(s); break;
        case 3: regular<double, double, 2>(s); break;
        case 4: regular<double, double, 3>(s); break;
        case 5: regular<float, Int32, 3>(s); break;
        default: regular<double, double, 6>(s); break;
    }
}

template <Uint32 n>
void singularOf(Source& s)
{
    // exactly singular, and detectably so in floating point
    Matrix<float, n, n> A{};
    for (Uint32 i = 0; i < n * n; ++i)
        A[i] = (float)s.integer(-6, 6);
    if (n == 2)
    {
        float k = (float)s.integer(-3, 3);
        if (s.boolean())
            A(1, 0) = k * A(0, 0), A(1, 1) = k * A(0, 1); // dependent rows
        else
            A(0, 1) = k * A(0, 0), A(1, 1) = k * A(1, 0); // dependent columns
    }
    else
    {
        Uint32 c = (Uint32)s.index(n);
        for (Uint32 i = 0; i < n; ++i)
            A(i, c) = 0;
        if (s.chance(1, 4))
            A = Matrix<float, n, n>{};
    }
    s.note("singular A = ", A);
    Solver<float, n> solver{A};
    PBT_CHECK(!solver.isValid(), "a singular matrix is accepted");
    Vector<float, n> b{};
    b[0]       = 1;
    int  threw = 0;
    auto expectThrow = [&](auto f, const char* what) {
        try
        {
            f();
        }
        catch (const simu::Exception&)
        {
            ++threw;
            return;
        }
        pbt::fail(what, " of a singular matrix returns");
    };
    expectThrow([&] { solver.solve(b); }, "Solver::solve");
    expectThrow([&] { simu::solve(A, b); }, "solve");
    expectThrow([&] { simu::invert(A); }, "invert");
    bool zero = true;
    for (Uint32 i = 0; i < n * n; ++i)
        zero = zero && A[i] == 0;
    s.nontrivial(!zero);
}

void singular(Source& s)
{
    switch (s.index(3))
    {
        case 0: singularOf<2>(s); break;
        case 1: singularOf<3>(s); break;
        default: singularOf<4>(s); break;
    }
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C03",
         "Square systems of 2 to 6 unknowns in float and double built from known singular values (condition number "
         "up to 30) and random plane rotations; residuals of solve and invert are measured in double precision "
         "against a tolerance proportional to epsilon times the condition number. Exactly singular matrices (small "
         "integers, dependent rows or columns for 2x2, a zero column otherwise) must be refused. Non-trivial: not "
         "diagonal and a non-zero right-hand side (regular), not all zero (singular).",
         {"condition number at most 30 for the systems that must be solved"},
         {{"regular", solveRegular, 400000, 12000000}, {"singular", singular, 200000, 2000000}}}
    );
}
