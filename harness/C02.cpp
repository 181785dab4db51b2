// C02: matrix and vector algebra
// SOURCES: math
// FLAGS: ubsan
#include "gen.hpp"

#include "Simu/math/Matrix.hpp"

using namespace simu;
using namespace gen;

namespace
{

// reference matrix of exact numbers
struct Ref
{
    int                 m, n;
    std::vector<double> v;
    Ref(int m_, int n_) : m{m_}, n{n_}, v((std::size_t)(m_ * n_), 0.0) {}
    double& operator()(int r, int c) { return v[(std::size_t)(r * n + c)]; }
    double  operator()(int r, int c) const { return v[(std::size_t)(r * n + c)]; }
};

template <class T>
std::string name()
{
    return std::is_same_v<T, Int32> ? "int" : (std::is_same_v<T, float> ? "float" : "double");
}

template <class T, Uint32 m, Uint32 n>
void same(const Matrix<T, m, n>& a, const Ref& r, const char* what)
{
    PBT_CHECK(r.m == (int)m && r.n == (int)n, what, ": wrong dimensions");
    for (Uint32 i = 0; i < m; ++i)
        for (Uint32 j = 0; j < n; ++j)
        {
            double got = (double)a(i, j), want = r((int)i, (int)j);
            PBT_CHECK(
                got == want || (std::isnan(got) && std::isnan(want)),
                what, ": element (", i, ", ", j, ") is ", got, " instead of ", want
            );
        }
}

template <Uint32 m, Uint32 n, class F>
Ref build(F f)
{
    Ref r{(int)m, (int)n};
    for (int i = 0; i < (int)m; ++i)
        for (int j = 0; j < (int)n; ++j)
            r(i, j) = f(i, j);
    return r;
}

template <class T, Uint32 m, Uint32 n>
Matrix<T, m, n> make(Source& s, Ref& r)
{
    Matrix<T, m, n> a{};
    bool            quarters = !std::is_same_v<T, Int32> && s.boolean();
    for (Uint32 i = 0; i < m; ++i)
        for (Uint32 j = 0; j < n; ++j)
        {
            long  k = s.integer(0, 24);
            long  z = (k % 2) ? (k + 1) / 2 : -k / 2;
            double d = quarters ? (double)z / 4 : (double)z;
            a(i, j)           = (T)d;
            r((int)i, (int)j) = d;
        }
    return a;
}

template <class T, class U, Uint32 m, Uint32 n, Uint32 k>
void algebra(Source& s)
{
    typedef Promoted<T, U> P;
    static_assert(std::is_same_v<P, std::common_type_t<T, U>>);
    Ref  ra{(int)m, (int)n}, rb{(int)m, (int)n}, rc{(int)n, (int)k}, rd{(int)n, (int)k};
    auto A = make<T, m, n>(s, ra);
    auto B = make<U, m, n>(s, rb);
    auto C = make<U, n, k>(s, rc);
    auto D = make<T, n, k>(s, rd);
    s.note(name<T>(), "/", name<U>(), " ", m, "x", n, " * ", n, "x", k, ": A=", A, " B=", B, " C=", C);
    s.label(pbt::cat(name<T>(), "/", name<U>()));

    // element access and storage order
    for (Uint32 i = 0; i < m; ++i)
        for (Uint32 j = 0; j < n; ++j)
            PBT_CHECK(&A(i, j) == &A[i * n + j] && &A(i, j) == A.begin() + (i * n + j), "row-major storage");
    PBT_CHECK(A.end() - A.begin() == (long)(m * n) && A.size() == m * n, "size");

    static_assert(std::is_same_v<decltype(A + B), Matrix<P, m, n>>);
    static_assert(std::is_same_v<decltype(A * C), Matrix<P, m, k>>);
    same(A + B, build<m, n>([&](int i, int j) { return ra(i, j) + rb(i, j); }), "A + B");
    same(A - B, build<m, n>([&](int i, int j) { return ra(i, j) - rb(i, j); }), "A - B");
    same(+A, ra, "+A");
    same(-A, build<m, n>([&](int i, int j) { return -ra(i, j); }), "-A");

    double sc = (double)s.integer(-6, 6);
    same(A * (U)sc, build<m, n>([&](int i, int j) { return ra(i, j) * sc; }), "A * s");
    same((U)sc * A, build<m, n>([&](int i, int j) { return ra(i, j) * sc; }), "s * A");
    double dv = s.pick({1.0, 2.0, -4.0});
    same(
        A / (U)dv,
        build<m, n>([&](int i, int j) {
            return std::is_same_v<P, Int32> ? std::trunc(ra(i, j) / dv) : ra(i, j) / dv;
        }),
        "A / s"
    );

    auto AC  = A * C;
    Ref  rac = build<m, k>([&](int i, int j) {
        double t = 0;
        for (int l = 0; l < (int)n; ++l)
            t += ra(i, l) * rc(l, j);
        return t;
    });
    same(AC, rac, "A * C");

    // compound assignment
    {
        Matrix<P, m, n> X{A};
        same(X, ra, "conversion");
        auto& r1 = (X += B);
        PBT_CHECK(&r1 == &X, "+= returns its object");
        same(X, build<m, n>([&](int i, int j) { return ra(i, j) + rb(i, j); }), "+=");
        X -= B;
        same(X, ra, "-=");
        X *= (P)sc;
        same(X, build<m, n>([&](int i, int j) { return ra(i, j) * sc; }), "*=");
        Matrix<P, m, n> Y{A};
        // scaled by one of its own elements
        P e = Y[0];
        if (e != 0)
        {
            Y *= Y[0];
            same(Y, build<m, n>([&](int i, int j) { return ra(i, j) * (double)e; }), "*= own element");
        }
        Matrix<P, m, n> Z{A};
        Z += Z;
        same(Z, build<m, n>([&](int i, int j) { return 2 * ra(i, j); }), "Z += Z");
        Z -= Z;
        same(Z, Ref((int)m, (int)n), "Z -= Z");
    }

    // transpose, rows, columns
    auto At = transpose(A);
    same(At, build<n, m>([&](int i, int j) { return ra(j, i); }), "transpose");
    same(transpose(At), ra, "transpose twice");
    same(transpose(AC), build<k, m>([&](int i, int j) { return rac(j, i); }), "(AC)^T");
    {
        auto L = transpose(AC), R = transpose(C) * transpose(A);
        for (Uint32 i = 0; i < L.size(); ++i)
            PBT_CHECK(L[i] == R[i], "(AC)^T != C^T A^T");
        // distributivity, exact for these numbers
        auto S = A * (C + D), S2 = A * C + A * D;
        for (Uint32 i = 0; i < S.size(); ++i)
            PBT_CHECK(S[i] == S2[i], "A(C + D) != AC + AD");
    }
    auto rows = A.asRows();
    auto cols = A.asCols();
    for (Uint32 i = 0; i < m; ++i)
        for (Uint32 j = 0; j < n; ++j)
        {
            PBT_CHECK((double)rows[i][j] == ra((int)i, (int)j), "asRows");
            PBT_CHECK((double)cols[j][i] == ra((int)i, (int)j), "asCols");
        }
    same(Matrix<T, m, n>::fromRows(rows), ra, "fromRows(asRows)");
    same(Matrix<T, m, n>::fromCols(cols), ra, "fromCols(asCols)");

    // special matrices
    same(Matrix<T, n, n>::identity(), build<n, n>([](int i, int j) { return i == j ? 1.0 : 0.0; }), "identity");
    {
        auto AI = A * Matrix<T, n, n>::identity();
        same(AI, ra, "A * I");
        auto IA = Matrix<T, m, m>::identity() * A;
        same(IA, ra, "I * A");
    }
    same(Matrix<T, m, n>::filled((T)sc), build<m, n>([&](int, int) { return sc; }), "filled");
    same(Matrix<T, m, n>{}, Ref((int)m, (int)n), "value-initialised");
    {
        Vector<T, n> v = cols.size() ? A.asRows()[0] : Vector<T, n>{};
        same(Matrix<T, n, n>::diagonal(v), build<n, n>([&](int i, int j) { return i == j ? (double)v[i] : 0.0; }),
             "diagonal");
    }

    // comparison
    auto  lt = A < B, le = A <= B, gt = A > B, ge = A >= B, eq = A == B, ne = A != B;
    bool  anyLt = false, allLt = true;
    for (Uint32 i = 0; i < m * n; ++i)
    {
        double x = ra.v[i], y = rb.v[i];
        PBT_CHECK(lt[i] == (x < y) && le[i] == (x <= y) && gt[i] == (x > y) && ge[i] == (x >= y)
                      && eq[i] == (x == y) && ne[i] == (x != y),
                  "comparison of ", x, " and ", y);
        anyLt = anyLt || x < y;
        allLt = allLt && x < y;
        auto both = lt && ne;
        auto one  = lt || gt;
        auto no   = !lt;
        PBT_CHECK(both[i] == (lt[i] && ne[i]) && one[i] == (lt[i] || gt[i]) && no[i] == !lt[i], "boolean operators");
    }
    PBT_CHECK(all(lt) == allLt && any(lt) == anyLt, "all / any");
    PBT_CHECK(all(A == A) && !any(A != A), "reflexivity");

    // element-wise standard functions
    {
        auto ab = std::abs(A);
        same(ab, build<m, n>([&](int i, int j) { return std::abs(ra(i, j)); }), "abs");
        if constexpr (!std::is_same_v<T, Int32>)
        {
            same(std::round(A), build<m, n>([&](int i, int j) { return std::round(ra(i, j)); }), "round");
        }
        if constexpr (std::is_same_v<T, U>)
        {
            same(std::min(A, B), build<m, n>([&](int i, int j) { return std::min(ra(i, j), rb(i, j)); }), "min");
            same(std::max(A, B), build<m, n>([&](int i, int j) { return std::max(ra(i, j), rb(i, j)); }), "max");
        }
    }

    int distinctNonZero = 0;
    for (double x : ra.v)
        distinctNonZero += x != 0;
    s.nontrivial(distinctNonZero >= 2 && m * n > 1);
}

template <class T, class U, bool all>
void sizes(Source& s)
{
    if constexpr (all)
    {
        switch (s.index(8))
        {
            case 0: return algebra<T, U, 2, 2, 2>(s);
            case 1: return algebra<T, U, 3, 3, 3>(s);
            case 2: return algebra<T, U, 2, 3, 4>(s);
            case 3: return algebra<T, U, 4, 2, 3>(s);
            case 4: return algebra<T, U, 1, 4, 2>(s);
            case 5: return algebra<T, U, 4, 4, 4>(s);
            case 6: return algebra<T, U, 3, 1, 3>(s);
            default: return algebra<T, U, 2, 6, 2>(s);
        }
    }
    else
    {
        switch (s.index(3))
        {
            case 0: return algebra<T, U, 2, 3, 2>(s);
            case 1: return algebra<T, U, 3, 3, 3>(s);
            default: return algebra<T, U, 4, 2, 1>(s);
        }
    }
}

void matrices(Source& s)
{
    switch (s.index(6))
    {
        case 0: sizes<float, float, true>(s); break;
        case 1: sizes<Int32, Int32, false>(s); break;
        case 2: sizes<float, Int32, false>(s); break;
        case 3: sizes<Int32, float, false>(s); break;
        case 4: sizes<double, float, false>(s); break;
        default: sizes<double, double, false>(s); break;
    }
}

template <Uint32 dim>
void vectorsOf(Source& s)
{
    Vector<float, dim> a{}, b{};
    double             lim = s.pick({8.0, 0.01, 10000.0});
    for (Uint32 i = 0; i < dim; ++i)
    {
        a[i] = s.f((float)-lim, (float)lim);
        b[i] = s.f((float)-lim, (float)lim);
    }
    s.note("vectors ", a, " ", b);
    double d = 0, na = 0, nb = 0, mag = 0;
    for (Uint32 i = 0; i < dim; ++i)
    {
        d += (double)a[i] * b[i];
        mag += std::abs((double)a[i] * b[i]);
        na += (double)a[i] * a[i];
        nb += (double)b[i] * b[i];
    }
    double eps = 1e-6;
    PBT_CHECK(close(dot(a, b), d, eps * (mag + 1e-30)), "dot ", dot(a, b), " vs ", d);
    PBT_CHECK(close(dot(b, a), d, eps * (mag + 1e-30)), "dot is not symmetric");
    PBT_CHECK(close(normSquared(a), na, eps * (na + 1e-30)), "normSquared");
    PBT_CHECK(close(norm(a), std::sqrt(na), eps * (std::sqrt(na) + 1e-15)), "norm");
    auto el = elementWiseMul(a, b);
    for (Uint32 i = 0; i < dim; ++i)
        PBT_CHECK(el[i] == a[i] * b[i], "elementWiseMul");
    // the square of the norm must neither underflow nor overflow
    if (na > 1e-20 && nb > 1e-20)
    {
        auto n = normalized(a);
        for (Uint32 i = 0; i < dim; ++i)
            PBT_CHECK(close(n[i], a[i] / std::sqrt(na), 2 * eps), "normalized");
        auto p = projection(a, b);
        for (Uint32 i = 0; i < dim; ++i)
            PBT_CHECK(close(p[i], b[i] * d / nb, 8 * eps * std::abs(b[i]) * mag / nb + 1e-25), "projection ", p);
    }
    s.nontrivial(na > 1e-20 && nb > 1e-20 && d != 0);

    // unit vectors
    auto unit = [&](Vector<float, dim> u, Uint32 k, const char* nm) {
        for (Uint32 i = 0; i < dim; ++i)
            PBT_CHECK(u[i] == (i == k ? 1.f : 0.f), nm);
    };
    unit(Vector<float, dim>::i(), 0, "i");
    unit(Vector<float, dim>::j(), 1, "j");
    unit(Vector<float, dim>::k(), 2, "k");
    unit(Vector<float, dim>::w(), 3, "w");

    if constexpr (dim == 2)
    {
        double c = (double)a[0] * b[1] - (double)a[1] * b[0];
        PBT_CHECK(close(cross(a, b), c, eps * (std::abs((double)a[0] * b[1]) + std::abs((double)a[1] * b[0]) + 1e-30)),
                  "cross");
        PBT_CHECK(perp(a)[0] == -a[1] && perp(a)[1] == a[0], "perp is k x v");
        PBT_CHECK(perp(a, true)[0] == a[1] && perp(a, true)[1] == -a[0], "clockwise perp is v x k");
        PBT_CHECK(close(cross(a, b), dot(perp(a), b), eps * (mag + std::abs(c) + std::sqrt(na * nb))), "cross vs perp");
    }
    if constexpr (dim == 3)
    {
        auto   c    = cross(a, b);
        double r[3] = {
            (double)a[1] * b[2] - (double)a[2] * b[1],
            (double)a[2] * b[0] - (double)a[0] * b[2],
            (double)a[0] * b[1] - (double)a[1] * b[0]};
        for (Uint32 i = 0; i < 3; ++i)
            PBT_CHECK(close(c[i], r[i], 2 * eps * std::sqrt(na * nb) + 1e-25), "cross component ", i, " ", c[i], " vs ", r[i]);
    }
}

void vectors(Source& s)
{
    switch (s.index(4))
    {
        case 0: vectorsOf<2>(s); break;
        case 1: vectorsOf<3>(s); break;
        case 2: vectorsOf<4>(s); break;
        default: vectorsOf<6>(s); break;
    }

    // a list of the wrong length is refused, whatever the dimension
    bool   threw = false;
    Uint32 want  = 0;
    long   len   = s.integer(0, 5);
    auto   attempt = [&](auto tag, std::initializer_list<float> l) {
        typedef decltype(tag) M;
        want = M::size();
        try
        {
            M mat(l);
            for (Uint32 i = 0; i < want; ++i)
                PBT_CHECK(mat[i] == l.begin()[i], "initializer list order");
        }
        catch (const simu::Exception&)
        {
            threw = true;
        }
    };
    auto withList = [&](auto tag) {
        switch (len)
        {
            case 0: attempt(tag, {}); break;
            case 1: attempt(tag, {1.f}); break;
            case 2: attempt(tag, {1.f, -2.f}); break;
            case 3: attempt(tag, {1.f, 2.f, 3.f}); break;
            case 4: attempt(tag, {1.f, 2.f, 3.f, -4.f}); break;
            default: attempt(tag, {1.f, 2.f, 3.f, 4.f, 5.f});
        }
    };
    switch (s.index(4))
    {
        case 0: withList(Vec2{}); break;
        case 1: withList(Vec3{}); break;
        case 2: withList(Mat2{}); break;
        default: withList(Vec4{}); break;
    }
    PBT_CHECK(threw == ((Uint32)len != want), "a list of ", len, " elements for ", want, threw ? " throws" : " is accepted");
}

// a number of any size, with all its digits
template <class T>
T anyNumber(Source& s)
{
    if (s.chance(1, 8))
        return s.pick({T{0}, T{1}, T{3}, std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), std::numeric_limits<T>::infinity()}) * (s.boolean() ? 1 : -1);
    int e = s.boolean() ? (int)s.integer(-3, 3) : (int)s.integer(std::numeric_limits<T>::min_exponent - 20, std::numeric_limits<T>::max_exponent - 1);
    return (T)std::ldexp((s.boolean() ? 1 : -1) * s.uniform(1, 2), e);
}

// each element is the correctly rounded result, whatever its size
template <class T, Uint32 m, Uint32 n>
void rangeOf(Source& s)
{
    typedef Matrix<T, m, n> M;
    M A{}, B{};
    for (T& x : A)
        x = anyNumber<T>(s);
    for (T& x : B)
        x = anyNumber<T>(s);
    T k = anyNumber<T>(s);
    s.note(name<T>(), " A=", A, " B=", B, " k=", k);
    long extreme = 0;
    auto same    = [&](const M& got, auto f, const char* what) {
        for (Uint32 i = 0; i < m * n; ++i)
        {
            T want = f(A[i], B[i]);
            extreme += !std::isnormal(want) && want != 0;
            PBT_CHECK(got[i] == want || (std::isnan(got[i]) && std::isnan(want)), what, ": element ", i, " is ", got[i], " instead of ", want, " for ", A[i], " and ", B[i], ", scalar ", k);
        }
    };
    same(A + B, [](T a, T b) { return a + b; }, "A + B");
    same(A - B, [](T a, T b) { return a - b; }, "A - B");
    same(-A, [](T a, T) { return -a; }, "-A");
    same(A * k, [&](T a, T) { return a * k; }, "A * k");
    same(k * A, [&](T a, T) { return a * k; }, "k * A");
    same(A / k, [&](T a, T) { return a / k; }, "A / k");
    M C{A};
    same(C += B, [](T a, T b) { return a + b; }, "A += B");
    C = A;
    same(C -= B, [](T a, T b) { return a - b; }, "A -= B");
    C = A;
    same(C *= k, [&](T a, T) { return a * k; }, "A *= k");
    C = A;
    same(C /= k, [&](T a, T) { return a / k; }, "A /= k");
    same(std::abs(A), [](T a, T) { return std::abs(a); }, "abs");
    same(std::round(A), [](T a, T) { return std::round(a); }, "round");
    same(std::min(A, B), [](T a, T b) { return std::min(a, b); }, "min");
    same(std::max(A, B), [](T a, T b) { return std::max(a, b); }, "max");
    if constexpr (n == 1)
        same(elementWiseMul(A, B), [](T a, T b) { return a * b; }, "elementWiseMul");
    auto lt = A < B, le = A <= B, gt = A > B, ge = A >= B, eq = A == B, ne = A != B;
    for (Uint32 i = 0; i < m * n; ++i)
        PBT_CHECK(lt[i] == (A[i] < B[i]) && le[i] == (A[i] <= B[i]) && gt[i] == (A[i] > B[i]) && ge[i] == (A[i] >= B[i]) && eq[i] == (A[i] == B[i]) && ne[i] == (A[i] != B[i]), "comparison of ", A[i], " and ", B[i]);
    s.labelIf(extreme > 0, "overflow or denormal numbers");
    s.nontrivial(k != 0);
}

void range(Source& s)
{
    switch (s.index(5))
    {
        case 0: rangeOf<float, 2, 1>(s); break;
        case 1: rangeOf<float, 3, 3>(s); break;
        case 2: rangeOf<float, 2, 4>(s); break;
        case 3: rangeOf<double, 2, 2>(s); break;
        default: rangeOf<double, 3, 1>(s);
    }
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C02",
         "Matrices of nine shapes over int, float, double and mixed element types with small integers or quarters, so "
         "that every result is exact and is compared for equality with a plain reference computation; vectors of "
         "2 to 6 dimensions over several magnitudes against double precision. Non-trivial: at least two "
         "non-zero elements (matrices), two vectors with non-zero norms and product (vectors), non-zero scalars. range: "
         "element-wise operations on numbers of any size, denormal and infinite ones too, give the rounded result.",
         {"no overflow of the element type in products of matrices"},
         {{"matrix", matrices, 1000000, 20000000}, {"vector", vectors, 1500000, 30000000}, {"range", range, 300000, 6000000}}}
    );
}
