// C30: the solvers of constraints, with constraint functions of a user
// SOURCES: math physics
// FLAGS: ubsan cov
#include "joint_common.hpp"

#include <tuple>

namespace
{

// g = A s + offset with s the centroids and angles of both bodies; f = g + curve g^2, component by component.
// Impulses are clamped in [lo, hi] dt, or to length radius dt; position impulses likewise without dt.
template <Uint32 dim>
struct Fn
{
    static constexpr Uint32 nBodies   = 2;
    static constexpr Uint32 dimension = dim;
    typedef Vector<float, dim>    Value;
    typedef Matrix<float, dim, 6> Jacobian;

    Jacobian A{};
    Value    offset{}, curve{}, biasV{};
    Value    lo = Value::filled(-1e9f), hi = Value::filled(1e9f), posLo = Value::filled(-1e9f), posHi = Value::filled(1e9f);
    float    radius = 0;

    Value g(const Proxies& p) const
    {
        Value r = offset;
        Vec2  c[2]{p[0].centroid(), p[1].centroid()};
        float st[6]{c[0][0], c[0][1], p[0].orientation(), c[1][0], c[1][1], p[1].orientation()};
        for (Uint32 i = 0; i < dim; ++i)
            for (Uint32 k = 0; k < 6; ++k)
                r[i] += A(i, k) * st[k];
        return r;
    }
    Value eval(const Proxies& p) const
    {
        Value r = g(p);
        for (Uint32 i = 0; i < dim; ++i)
            r[i] += curve[i] * r[i] * r[i];
        return r;
    }
    Jacobian jacobian(const Proxies& p) const
    {
        Value    r = g(p);
        Jacobian J = A;
        for (Uint32 i = 0; i < dim; ++i)
            for (Uint32 k = 0; k < 6; ++k)
                J(i, k) *= 1 + 2 * curve[i] * r[i];
        return J;
    }
    Value bias(const Proxies& p) const
    {
        return biasV + offset * (p[0].orientation() * 0.01f);
    }
    Value clamp(Value l, const Value& a, const Value& b, float dt) const
    {
        float n = 0;
        for (Uint32 i = 0; i < dim; ++i)
        {
            l[i] = std::min(std::max(l[i], a[i] * dt), b[i] * dt);
            n += l[i] * l[i];
        }
        n = std::sqrt(n);
        if (radius > 0 && n > radius * dt)
            l *= radius * dt / n;
        return l;
    }
    Value clampLambda(const Value& l, float dt) const { return clamp(l, lo, hi, dt); }
    Value clampPositionLambda(const Value& l) const { return clamp(l, posLo, posHi, 1); }
};

// condition number of a small symmetric positive matrix, by power iterations on it and its inverse
double condition(const std::vector<std::vector<double>>& K)
{
    std::size_t         n = K.size();
    std::vector<double> v(n, 1), w(n, 1);
    double              hi = 0, lo = 0;
    for (std::size_t i = 0; i < n; ++i)
        v[i] = w[i] = 1 + 0.3 * (double)i;
    for (int it = 0; it < 60; ++it)
    {
        std::vector<double> r(n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                r[i] += K[i][j] * v[j];
        double m = 0;
        for (double x : r)
            m = std::max(m, std::abs(x));
        if (m == 0)
            return 1e30;
        hi = m;
        for (std::size_t i = 0; i < n; ++i)
            v[i] = r[i] / m;
        std::vector<double> q = solveDense(K, w);
        if (q.empty())
            return 1e30;
        m = 0;
        for (double x : q)
            m = std::max(m, std::abs(x));
        lo = 1 / m;
        for (std::size_t i = 0; i < n; ++i)
            w[i] = q[i] / m;
    }
    return lo > 0 ? hi / lo : 1e30;
}

struct Pair
{
    std::vector<Position> p{};
    std::vector<Velocity> v{};
    InvMasses             m{};

    Proxies proxies() { return Proxies{SolverProxy{&p[0], &v[0]}, SolverProxy{&p[1], &v[1]}, m}; }
    D6      W() const { return {m.m0, m.m0, m.I0, m.m1, m.m1, m.I1}; }
    D6      velocity() const
    {
        return {v[0].linear()[0], v[0].linear()[1], v[0].angular(), v[1].linear()[0], v[1].linear()[1], v[1].angular()};
    }
    D6 state() const
    {
        Vec2 a = p[0].centroid(), b = p[1].centroid();
        return {a[0], a[1], p[0].orientation(), b[0], b[1], p[1].orientation()};
    }
};

Pair pair(Source& s)
{
    Pair r;
    for (int i = 0; i < 2; ++i)
    {
        Vec2 at = vec(s, 3), lc = s.chance(1, 3) ? vec(s, 1) : Vec2{};
        r.p.emplace_back(at, s.f(-1, 1), lc);
        Vec2 l = vec(s, 3);
        r.v.emplace_back(l, s.f(-3, 3));
    }
    r.m          = InvMasses{s.f(0.2f, 4), s.f(0.2f, 4), s.f(0.2f, 4), s.f(0.2f, 4)};
    unsigned how = (unsigned)s.weighted({6, 1, 1});
    if (how == 1)
        r.m.m0 = r.m.I0 = 0;
    if (how == 2)
        r.m.m1 = r.m.I1 = 0;
    return r;
}

template <Uint32 dim>
std::vector<std::vector<double>> effectiveMass(const Matrix<float, dim, 6>& J, const D6& W)
{
    std::vector<std::vector<double>> K(dim, std::vector<double>(dim));
    for (Uint32 i = 0; i < dim; ++i)
        for (Uint32 j = 0; j < dim; ++j)
            for (Uint32 k = 0; k < 6; ++k)
                K[i][j] += (double)J(i, k) * W[k] * J(j, k);
    return K;
}

// rows of similar importance for the masses, far enough from parallel
template <Uint32 dim>
void rows(Source& s, Matrix<float, dim, 6>& A, const D6& W)
{
    for (Uint32 i = 0; i < dim; ++i)
        for (Uint32 k = 0; k < 6; ++k)
            A(i, k) = s.f(-1, 1);
    auto   K    = effectiveMass<dim>(A, W);
    double least = 1e30;
    for (Uint32 i = 0; i < dim; ++i)
        least = std::min(least, K[i][i]);
    if (least < 0.3 || condition(K) > 12)
    {
        // anchored to coordinates that move
        int first = W[0] > 0 ? 0 : 3;
        for (Uint32 i = 0; i < dim; ++i)
            for (Uint32 k = 0; k < 6; ++k)
                A(i, k) *= 0.1f;
        for (Uint32 i = 0; i < dim; ++i)
            A(i, first + i) = 1;
    }
}

template <Uint32 dim>
Vector<float, dim> values(Source& s, float lo, float hi)
{
    Vector<float, dim> r{};
    for (Uint32 i = 0; i < dim; ++i)
        r[i] = s.f(lo, hi);
    return r;
}

template <Uint32 dim>
Fn<dim> function(Source& s, const D6& W, bool clamps)
{
    Fn<dim> f;
    rows<dim>(s, f.A, W);
    f.offset = values<dim>(s, -1, 1);
    if (s.chance(1, 3))
        f.curve = values<dim>(s, -0.05f, 0.05f);
    if (s.chance(1, 3))
        f.biasV = values<dim>(s, -2, 2);
    if (clamps)
    {
        if (s.boolean())
            f.lo = values<dim>(s, -60, -5);
        if (s.boolean())
            f.hi = values<dim>(s, 5, 60);
        if (s.boolean())
            f.posLo = values<dim>(s, -1, -0.1f);
        if (s.boolean())
            f.posHi = values<dim>(s, 0.1f, 1);
    }
    return f;
}

template <Uint32 dim>
std::vector<double> times(const Matrix<float, dim, 6>& J, const D6& v)
{
    std::vector<double> r(dim);
    for (Uint32 i = 0; i < dim; ++i)
        for (Uint32 k = 0; k < 6; ++k)
            r[i] += (double)J(i, k) * v[k];
    return r;
}

template <Uint32 dim>
void addImpulse(D6& v, const D6& W, const Matrix<float, dim, 6>& J, const std::vector<double>& l)
{
    for (Uint32 k = 0; k < 6; ++k)
        for (Uint32 i = 0; i < dim; ++i)
            v[k] += W[k] * J(i, k) * l[i];
}

double largest(const D6& a)
{
    double m = 0;
    for (double x : a)
        m = std::max(m, std::abs(x));
    return m;
}

enum class Kind
{
    equality,
    inequality,
    limits
};

// the conditions on l for residual w: free components have no residual, those at a bound may only be pushed further
template <class... Args>
void conditions(double l, double lo, double hi, double w, double tolL, double tolW, const Args&... what)
{
    PBT_CHECK(l >= lo - tolL && l <= hi + tolL, what..., ": impulse ", l, " is not within ", lo, " .. ", hi);
    bool atLo = l <= lo + tolL, atHi = l >= hi - tolL;
    PBT_CHECK(w >= -tolW || atHi, what..., ": residual ", w, " with impulse ", l, " in ", lo, " .. ", hi);
    PBT_CHECK(w <= tolW || atLo, what..., ": residual ", w, " with impulse ", l, " in ", lo, " .. ", hi);
}

template <Uint32 dim, class S, Kind kind>
void solverOf(Source& s)
{
    typedef Fn<dim>                 F;
    typedef typename F::Value       V;
    Pair    world = pair(s);
    D6      W     = world.W();
    // clamps of coupled components are those of the projection, which is exact for a single one
    bool clamps = s.chance(1, 3) && (kind == Kind::inequality || dim == 1);
    F    f      = function<dim>(s, W, clamps);
    if constexpr (kind == Kind::inequality)
    {
        f.lo = f.posLo = V{};
        if (!clamps)
            f.hi = f.posHi = V::filled(1e9f);
    }

    static World  unused; // solvers ignore the bodies
    static Bodies bodies{
        makeBody(unused, boxVerts(1, 1), Vec2{}), makeBody(unused, boxVerts(1, 1), Vec2{3, 0})};
    S solver{bodies, f};
    if (s.chance(1, 3))
        solver.restitution() = values<dim>(s, 0, 0.2f);
    if (kind != Kind::inequality && s.chance(1, 3))
        solver.damping() = values<dim>(s, 0, 2);

    std::optional<V> L, U;
    if constexpr (kind == Kind::limits)
    {
        if (s.chance(2, 3))
            L = values<dim>(s, -1, 0.5f);
        unsigned how = (unsigned)s.weighted({2, 2, 1});
        if (how == 1)
            U = L ? *L + values<dim>(s, 0.1f, 1) : values<dim>(s, -1, 1);
        if (how == 2 && L)
            U = L;
        solver.setLowerLimit(L);
        solver.setUpperLimit(U);
        s.note("limits ", L ? (double)(*L)[0] : -1e30, " .. ", U ? (double)(*U)[0] : 1e30);
    }

    s.note("A = ", f.A, " offset ", f.offset, " curve ", f.curve, " bias ", f.biasV, " clamps ", f.lo, " .. ", f.hi, " positions ",
           f.posLo, " .. ", f.posHi, " W = ", W[0], " ", W[2], " ", W[3], " ", W[5], " restitution ", solver.restitution(),
           " damping ", solver.damping());

    int  steps = (int)s.integer(1, 4), solved = 0, clamped = 0, warm = 0, moved = 0;
    int  lastOn = 3; // the relation of the last impulse
    for (int step = 0; step < steps; ++step)
    {
        float   dt      = s.pick({1.f / 60, 1.f / 30, 1.f / 120, 0.25f});
        Proxies proxies = world.proxies();

        // which relation applies, in doubles of the values of f
        V   C  = f.eval(proxies);
        int on = 0; // 0 equality, 1 lower, 2 upper, 3 off
        if constexpr (kind == Kind::inequality)
            on = 1;
        if constexpr (kind == Kind::limits)
        {
            if ((!L && !U) || (L && U && (*L)[0] == (*U)[0]))
                on = 0;
            else if (L && C[0] <= (*L)[0])
                on = 1;
            else if (U && C[0] >= (*U)[0])
                on = 2;
            else
                on = 3;
            // rounding decides
            if ((L && std::abs(C[0] - (*L)[0]) < 1e-5) || (U && std::abs(C[0] - (*U)[0]) < 1e-5))
                throw pbt::Discard{};
            PBT_CHECK(solver.isActive(proxies, f) == (on != 3), "f = ", C, ", the solver is ", on == 3 ? "" : "not ", "active");
        }
        std::vector<double> target(dim);
        for (Uint32 i = 0; i < dim; ++i)
            target[i] = kind != Kind::limits ? 0 : on == 2 ? (*U)[i] : L && on != 3 ? (*L)[i] : 0;

        if (on != 3)
        {
            auto J = f.jacobian(proxies);
            auto K = effectiveMass<dim>(J, W);
            if (condition(K) > 25)
                throw pbt::Discard{};
            double kMax = 0;
            for (auto& r : K)
                for (double x : r)
                    kMax = std::max(kMax, std::abs(x));

            V  previous = solver.getAccumulatedLambda();
            D6 v0       = world.velocity();
            solver.initSolve(proxies, f);
            D6 v1 = world.velocity();
            PBT_CHECK(v0 == v1, "initSolve changes velocities");
            for (Uint32 i = 0; i < dim; ++i)
                PBT_CHECK(solver.getAccumulatedLambda()[i] == 0, "initSolve starts with an impulse");

            double sign = on == 2 ? -1 : 1;
            D6     start = v0; // without impulse of this step
            if (s.boolean())
            {
                solver.warmstart(proxies, f, dt);
                V                   l = solver.getAccumulatedLambda();
                std::vector<double> d(dim);
                for (Uint32 i = 0; i < dim; ++i)
                    d[i] = sign * l[i];
                D6 e = v0;
                addImpulse<dim>(e, W, J, d);
                for (int k = 0; k < 6; ++k)
                    PBT_CHECK(close(world.velocity()[k], e[k], 1e-4 * (1 + largest(e) + largest(v0))), "warmstart with impulse ", l,
                              " gives velocity ", world.velocity()[k], " instead of ", e[k]);
                if (kind != Kind::limits)
                {
                    V expected = f.clampLambda(previous, dt);
                    for (Uint32 i = 0; i < dim; ++i)
                        PBT_CHECK(close(l[i], expected[i], 1e-5 * (1 + std::abs(expected[i]))), "warmstart with ", l, " instead of ",
                                  expected);
                }
                if constexpr (kind == Kind::limits)
                {
                    // an impulse is kept for the limit that it was for
                    V kept = on != lastOn ? V{} : on == 2 ? -f.clampLambda(-previous, dt) : f.clampLambda(previous, dt);
                    for (Uint32 i = 0; i < dim; ++i)
                        if (on != 2 || on != lastOn || kept[i] == previous[i])
                            PBT_CHECK(close(l[i], kept[i], 1e-5 * (1 + std::abs(kept[i]))), "warmstart with ", l, " instead of ", kept,
                                      ", relation ", on, " after ", lastOn);
                    if (on != lastOn && !all(previous == V{}))
                        s.label("another limit than last");
                }
                if (!all(l == V{}))
                    ++warm;
            }
            lastOn = on;

            int iterations = (int)s.integer(1, 3);
            for (int it = 0; it < iterations; ++it)
            {
                if (s.chance(1, 3) || it > 0)
                {
                    // another constraint pushes
                    Vec2 a = vec(s, 1), b = vec(s, 1);
                    D6   before = world.velocity();
                    world.v[0].increment(a, s.f(-1, 1));
                    world.v[1].increment(b, s.f(-1, 1));
                    D6 after = world.velocity();
                    for (int k = 0; k < 6; ++k)
                        start[k] += after[k] - before[k];
                }
                V oldL = solver.getAccumulatedLambda();
                solver.solveVelocity(proxies, f, dt);
                ++solved;
                V                   l = solver.getAccumulatedLambda();
                std::vector<double> d(dim);
                double              lMax = 0;
                for (Uint32 i = 0; i < dim; ++i)
                {
                    d[i] = sign * l[i];
                    lMax = std::max({lMax, (double)std::abs(l[i]), (double)std::abs(oldL[i])});
                }
                D6 e = start;
                addImpulse<dim>(e, W, J, d);
                D6     v     = world.velocity();
                double scale = 1 + largest(e) + largest(start) + lMax * kMax;
                for (int k = 0; k < 6; ++k)
                    PBT_CHECK(close(v[k], e[k], 3e-5 * scale), "step ", step, ", iteration ", it, ": velocity ", k, " is ", v[k],
                              ", its impulses make ", e[k]);

                auto Jv = times<dim>(J, v);
                V    b  = f.bias(proxies);
                for (Uint32 i = 0; i < dim; ++i)
                {
                    double soft = kind == Kind::inequality ? 0 : solver.damping()[i];
                    double w    = Jv[i] + b[i] + solver.restitution()[i] * (C[i] - target[i]) / dt + soft * d[i];
                    double lo = (double)f.lo[i] * dt, hi = (double)f.hi[i] * dt;
                    if (kind == Kind::limits && on == 1)
                        lo = std::max(lo, 0.);
                    if (kind == Kind::limits && on == 2)
                        hi = std::min(hi, 0.);
                    scale = 1 + std::abs(Jv[i]) + std::abs(b[i]) + std::abs(C[i] / dt) * 0.2 + lMax * (kMax + 2);
                    // the iterative solver stops when impulses hardly change
                    double tolW = 1e-4 * scale;
                    conditions(d[i], lo, hi, w, 1e-5 * (1 + lMax), tolW, "step ", step, ", iteration ", it, ", component ", i);
                    if (d[i] <= lo + 1e-5 || d[i] >= hi - 1e-5)
                        ++clamped;
                }
            }
        }

        // positions
        Vec2 drift[2]{vec(s, 0.3), vec(s, 0.3)};
        world.p[0].advance(drift[0], s.f(-0.2f, 0.2f));
        world.p[1].advance(drift[1], s.f(-0.2f, 0.2f));
        if (s.chance(2, 3))
        {
            V      before = f.eval(proxies);
            D6     st = world.state(), v = world.velocity();
            auto   J = f.jacobian(proxies);
            auto   K = effectiveMass<dim>(J, W);
            int    now = on;
            if constexpr (kind == Kind::limits)
            {
                if ((L && std::abs(before[0] - (*L)[0]) < 1e-5) || (U && std::abs(before[0] - (*U)[0]) < 1e-5))
                    throw pbt::Discard{};
                now = !L && !U ? 0 : L && U && (*L)[0] == (*U)[0] ? 0 : L && before[0] < (*L)[0] ? 1 : U && before[0] > (*U)[0] ? 2 : 3;
            }
            if (condition(K) > 25)
                throw pbt::Discard{};
            solver.solvePosition(proxies, f);
            PBT_CHECK(v == world.velocity(), "position correction changes velocities");
            D6 change = world.state();
            for (int k = 0; k < 6; ++k)
                change[k] -= st[k];
            if (now == 3)
                PBT_CHECK(largest(change) < 1e-6, "position correction between the limits");
            else
            {
                // the impulse: projection of the change
                std::vector<double> r = times<dim>(J, change), l = solveDense(K, r);
                D6                  e{};
                addImpulse<dim>(e, W, J, l);
                double lMax = 0, scale = 1 + largest(st);
                for (Uint32 i = 0; i < dim; ++i)
                    lMax = std::max(lMax, std::abs(l[i])), scale += std::abs(before[i]);
                for (int k = 0; k < 6; ++k)
                    PBT_CHECK(close(change[k], e[k], 3e-5 * scale), "position correction ", k, " is ", change[k],
                              ", an impulse along the gradient makes ", e[k]);
                for (Uint32 i = 0; i < dim; ++i)
                {
                    double t  = kind != Kind::limits ? 0 : now == 2 ? (*U)[i] : L ? (*L)[i] : 0;
                    double lo = f.posLo[i], hi = f.posHi[i];
                    if (kind == Kind::limits && now == 1)
                        lo = std::max(lo, 0.);
                    if (kind == Kind::limits && now == 2)
                        hi = std::min(hi, 0.);
                    double w = before[i] - t + r[i];
                    if (kind == Kind::inequality && dim > 1)
                    {
                        // clamps the solution of the equality
                        std::vector<double> need(dim);
                        for (Uint32 j = 0; j < dim; ++j)
                            need[j] = -before[j];
                        double x = solveDense(K, need)[i];
                        x        = std::min(std::max(x, lo), hi);
                        PBT_CHECK(close(l[i], x, 1e-4 * scale), "position impulse ", l[i], " instead of ", x);
                    }
                    else
                        conditions(l[i], lo, hi, w, 1e-4 * scale, 1e-4 * scale * (1 + K[i][i]), "positions of step ", step,
                                   ", component ", i);
                }
                if (largest(change) > 1e-3)
                    ++moved;
            }
        }
    }
    s.labelIf(clamped > 0, "clamped impulses");
    s.labelIf(warm > 0, "warm starts");
    s.labelIf(moved > 0, "position corrections");
    s.labelIf(solved == 0, "never active");
    s.nontrivial(solved > 0 && moved > 0);
}

void solver(Source& s)
{
    switch (s.index(7))
    {
        case 0: solverOf<1, EqualitySolver<Fn<1>>, Kind::equality>(s); s.label("equality 1"); break;
        case 1: solverOf<2, EqualitySolver<Fn<2>>, Kind::equality>(s); s.label("equality 2"); break;
        case 2: solverOf<3, EqualitySolver<Fn<3>>, Kind::equality>(s); s.label("equality 3"); break;
        case 3: solverOf<1, InequalitySolver<Fn<1>>, Kind::inequality>(s); s.label("inequality 1"); break;
        case 4: solverOf<2, InequalitySolver<Fn<2>>, Kind::inequality>(s); s.label("inequality 2"); break;
        case 5: solverOf<3, InequalitySolver<Fn<3>>, Kind::inequality>(s); s.label("inequality 3"); break;
        default: solverOf<1, LimitsSolver<Fn<1>>, Kind::limits>(s); s.label("limits"); break;
    }
}

// ConstraintFunctions: the functions one after the other

struct Flat
{
    std::vector<float>              eval{}, bias{}, clamped{}, posClamped{};
    std::vector<std::array<float, 6>> J{};
};

template <Uint32 dim>
void append(Flat& flat, const Fn<dim>& f, const Proxies& p, const std::vector<float>& lambda, float dt)
{
    typename Fn<dim>::Value l{};
    for (Uint32 i = 0; i < dim; ++i)
        l[i] = lambda[flat.eval.size() + i];
    auto e = f.eval(p);
    auto b = f.bias(p);
    auto J = f.jacobian(p);
    auto c = f.clampLambda(l, dt);
    auto q = f.clampPositionLambda(l);
    for (Uint32 i = 0; i < dim; ++i)
    {
        flat.eval.push_back(e[i]);
        flat.bias.push_back(b[i]);
        flat.clamped.push_back(c[i]);
        flat.posClamped.push_back(q[i]);
        std::array<float, 6> row{};
        for (Uint32 k = 0; k < 6; ++k)
            row[k] = J(i, k);
        flat.J.push_back(row);
    }
}

template <class... Fs>
struct Maker
{
    template <Uint32 dim>
    static Fn<dim> make(Source& s, const D6& W)
    {
        Fn<dim> f = function<dim>(s, W, s.boolean());
        if (s.chance(1, 3))
            f.radius = s.f(0.1f, 10);
        return f;
    }
};

template <class F>
void compare(Source& s, const F& f, const Flat& flat, const Proxies& p, const std::vector<float>& lambda, float dt)
{
    PBT_CHECK(F::dimension == flat.eval.size(), "dimension ", F::dimension, " instead of ", flat.eval.size());
    typename F::Value l{};
    for (Uint32 i = 0; i < F::dimension; ++i)
        l[i] = lambda[i];
    auto e = f.eval(p);
    auto b = f.bias(p);
    auto J = f.jacobian(p);
    auto c = f.clampLambda(l, dt);
    auto q = f.clampPositionLambda(l);
    for (Uint32 i = 0; i < F::dimension; ++i)
    {
        PBT_CHECK(e[i] == flat.eval[i], "eval ", i, " is ", e[i], " instead of ", flat.eval[i]);
        PBT_CHECK(b[i] == flat.bias[i], "bias ", i, " is ", b[i], " instead of ", flat.bias[i]);
        PBT_CHECK(c[i] == flat.clamped[i], "clampLambda ", i, " is ", c[i], " instead of ", flat.clamped[i]);
        PBT_CHECK(q[i] == flat.posClamped[i], "clampPositionLambda ", i, " is ", q[i], " instead of ", flat.posClamped[i]);
        for (Uint32 k = 0; k < 6; ++k)
            PBT_CHECK(J(i, k) == flat.J[i][k], "jacobian(", i, ", ", k, ") is ", J(i, k), " instead of ", flat.J[i][k]);
    }
    s.note("equal");
}

template <Uint32... dims>
void compositionOf(Source& s)
{
    Pair                  world = pair(s);
    D6                    W     = world.W();
    std::tuple<Fn<dims>...> fs{Maker<>::template make<dims>(s, W)...};
    float                 dt = s.pick({1.f / 60, 0.25f, 1.f});
    std::vector<float>    lambda;
    for (Uint32 i = 0; i < (dims + ...); ++i)
        lambda.push_back(s.f(-10, 10));
    Proxies p = world.proxies();

    Flat flat;
    std::apply([&](const auto&... f) { (append(flat, f, p, lambda, dt), ...); }, fs);
    auto all = std::apply([](const auto&... f) { return ConstraintFunctions<Fn<dims>...>{f...}; }, fs);
    compare(s, all, flat, p, lambda, dt);

    // compositions of compositions
    typedef ConstraintFunctions<ConstraintFunctions<Fn<dims>...>, Fn<1>> Before;
    typedef ConstraintFunctions<Fn<1>, ConstraintFunctions<Fn<dims>...>> After;
    Fn<1> one = Maker<>::template make<1>(s, W);
    {
        std::vector<float> l = lambda;
        l.push_back(s.f(-10, 10));
        Flat more = flat;
        append(more, one, p, l, dt);
        compare(s, Before{all, one}, more, p, l, dt);
    }
    {
        std::vector<float> l{s.f(-10, 10)};
        l.insert(l.end(), lambda.begin(), lambda.end());
        Flat more;
        append(more, one, p, l, dt);
        std::apply([&](const auto&... f) { (append(more, f, p, l, dt), ...); }, fs);
        compare(s, After{one, all}, more, p, l, dt);
    }
    bool clamped = false;
    for (std::size_t i = 0; i < lambda.size(); ++i)
        clamped = clamped || flat.clamped[i] != lambda[i];
    s.labelIf(clamped, "clamped impulses");
    s.nontrivial(sizeof...(dims) > 1 && clamped);
}

void composition(Source& s)
{
    switch (s.index(6))
    {
        case 0: compositionOf<1>(s); break;
        case 1: compositionOf<1, 1>(s); break;
        case 2: compositionOf<1, 2>(s); break;
        case 3: compositionOf<2, 1>(s); break;
        case 4: compositionOf<1, 2, 1>(s); break;
        default: compositionOf<2, 2>(s); break;
    }
}

// constraints of a user in a world

template <Uint32 dim, template <class> class S>
class UserConstraint : public ConstraintImplementation<Fn<dim>, S<Fn<dim>>>
{
public:
    typedef ConstraintImplementation<Fn<dim>, S<Fn<dim>>> Base;
    UserConstraint(const Bodies& bodies, const Fn<dim>& f) : Base{bodies, f, true} {}
    S<Fn<dim>>& theSolver() { return this->solver; }
};

D6 stateOf(const Body* a, const Body* b)
{
    Vec2 p = a->centroid(), q = b->centroid();
    return {p[0], p[1], a->orientation(), q[0], q[1], b->orientation()};
}

template <Uint32 dim>
std::vector<double> valueAt(const Fn<dim>& f, const D6& st)
{
    auto g = times<dim>(f.A, st);
    for (Uint32 i = 0; i < dim; ++i)
    {
        g[i] += f.offset[i];
        g[i] += f.curve[i] * g[i] * g[i];
    }
    return g;
}

template <Uint32 dim, template <class> class S>
void worldOf(Source& s, bool inequality, bool limited)
{
    World           w;
    World::Settings settings      = w.settings();
    settings.nVelocityIterations  = (Uint32)s.integer(1, 6);
    settings.nPositionIterations  = (Uint32)s.integer(1, 4);
    settings.enableWarmstarting   = s.boolean();
    w.updateSettings(settings);

    Body* b[2]{};
    for (int i = 0; i < 2; ++i)
    {
        double side = s.real(0.6, 1.6), m = s.real(0.3, 4), dominance = s.chance(1, 6) ? s.real(0.2, 1) : 1;
        if (i == 1 && s.chance(1, 6))
            dominance = 0;
        Material mat{};
        mat.density = (float)(m / side / side);
        Vec2 at           = vec(s, 2);
        b[i]              = makeBody(w, boxVerts(side, side, s.chance(1, 4) ? vec(s, 1) : Vec2{}), at, s.real(-1, 1), dominance, mat);
    }
    Bodies bodies{b[0], b[1]};
    D6     W{};
    for (int k = 0; k < 6; ++k)
        W[k] = b[k / 3]->dominance() * (k % 3 == 2 ? b[k / 3]->invInertia() : b[k / 3]->invMass());
    Fn<dim>   f  = function<dim>(s, W, false);
    f.biasV      = {};
    f.curve      = {};
    // bias() of Fn turns with the body
    if (inequality)
    {
        f.lo = f.posLo = {};
    }
    auto* c = w.makeConstraint<UserConstraint<dim, S>>(bodies, f);
    double L = -1e30, U = 1e30;
    if constexpr (std::is_same_v<S<Fn<dim>>, LimitsSolver<Fn<dim>>>)
    {
        L = s.f(-0.5f, 0);
        U = s.f(0.1f, 0.6f);
        c->theSolver().setLowerLimit(Vector<float, 1>{(float)L});
        c->theSolver().setUpperLimit(Vector<float, 1>{(float)U});
    }
    s.note("A = ", f.A, " offset ", f.offset, " W ", W[0], " ", W[2], " ", W[3], " ", W[5], ", ", settings.nVelocityIterations,
           " velocity iterations, ", settings.nPositionIterations, " for positions");

    int steps = (int)s.integer(1, 8), acted = 0;
    for (int step = 0; step < steps; ++step)
    {
        if (step == 0 || s.chance(1, 3))
            for (Body* body : b)
                if (body->dominance() != 0)
                {
                    Vec2 v = vec(s, 2);
                    body->setVelocity(v);
                    body->setAngularVelocity(s.f(-2, 2));
                }
        D6     v0 = velocities(b[0], b[1]), s0 = stateOf(b[0], b[1]);
        auto   C0 = valueAt(f, s0);
        double dt = 1.f / 60;
        // bias at the start
        std::vector<double> bias(dim);
        for (Uint32 i = 0; i < dim; ++i)
            bias[i] = (double)f.offset[i] * b[0]->orientation() * 0.01;
        if (limited && (std::abs(C0[0] - L) < 1e-4 || std::abs(C0[0] - U) < 1e-4))
            throw pbt::Discard{};
        bool on = !limited || C0[0] < L || C0[0] > U;
        w.step((float)dt);
        D6   v1 = velocities(b[0], b[1]), s1 = stateOf(b[0], b[1]);
        auto K  = effectiveMass<dim>(f.A, W);

        D6 dv{};
        for (int k = 0; k < 6; ++k)
            dv[k] = v1[k] - v0[k];
        auto Jdv = times<dim>(f.A, dv);
        auto l   = solveDense(K, Jdv);
        D6   e   = v0;
        addImpulse<dim>(e, W, f.A, l);
        double scale = 1 + largest(v0) + largest(s0);
        for (int k = 0; k < 6; ++k)
            PBT_CHECK(close(v1[k], e[k], 1e-4 * scale), "step ", step, ": velocity ", k, " changed by ", dv[k],
                      ", impulses along the gradient change it by ", e[k] - v0[k]);
        auto Jv = times<dim>(f.A, v1);
        for (Uint32 i = 0; i < dim; ++i)
        {
            double lo = -1e9, hi = 1e9;
            if (inequality || (limited && C0[0] < L))
                lo = 0;
            if (limited && C0[0] > U)
                hi = 0;
            if (!on)
                lo = hi = 0;
            conditions(l[i], lo, hi, Jv[i] + bias[i], 2e-4 * scale, 2e-4 * scale * (1 + K[i][i]), "step ", step, ", component ", i);
            if (std::abs(l[i]) > 1e-2)
                ++acted;
        }

        // positions: moved by the velocity, then corrected along the gradient
        D6 moved{};
        for (int k = 0; k < 6; ++k)
            moved[k] = s1[k] - s0[k] - v1[k] * dt;
        auto m = solveDense(K, times<dim>(f.A, moved));
        D6   along{};
        addImpulse<dim>(along, W, f.A, m);
        for (int k = 0; k < 6; ++k)
            PBT_CHECK(close(moved[k], along[k], 1e-4 * scale), "step ", step, ": position ", k, " is corrected by ", moved[k],
                      ", along the gradient ", along[k]);
        auto C1 = valueAt(f, s1);
        D6   advanced = s0;
        for (int k = 0; k < 6; ++k)
            advanced[k] += v1[k] * dt;
        auto before = valueAt(f, advanced);
        for (Uint32 i = 0; i < dim; ++i)
        {
            double tol = 2e-4 * scale;
            if (limited)
            {
                // an inactive constraint does not take part in the step
                if (!on)
                    PBT_CHECK(close(C1[i], before[i], tol), "step ", step, ": corrected although inactive");
                else
                {
                    PBT_CHECK(C1[i] >= L - tol && C1[i] <= U + tol, "step ", step, ": f = ", C1[i], " not within ", L, " .. ", U);
                    if (before[i] > L + tol && before[i] < U - tol)
                        PBT_CHECK(close(C1[i], before[i], tol), "step ", step, ": corrected inside of the limits");
                }
            }
            else if (inequality)
            {
                if (dim == 1)
                    PBT_CHECK(C1[i] >= -tol, "step ", step, ": f = ", C1[i], " is left negative");
                PBT_CHECK(m[i] >= -tol, "step ", step, ": position impulse ", m[i], " pulls");
            }
            else
                PBT_CHECK(std::abs(C1[i]) <= tol, "step ", step, ": f = ", C1[i], " after the correction");
        }
    }
    s.nontrivial(acted > 0);
}

void world(Source& s)
{
    switch (s.index(6))
    {
        case 0: worldOf<1, EqualitySolver>(s, false, false); s.label("equality 1"); break;
        case 1: worldOf<2, EqualitySolver>(s, false, false); s.label("equality 2"); break;
        case 2: worldOf<3, EqualitySolver>(s, false, false); s.label("equality 3"); break;
        case 3: worldOf<1, InequalitySolver>(s, true, false); s.label("inequality 1"); break;
        case 4: worldOf<2, InequalitySolver>(s, true, false); s.label("inequality 2"); break;
        default: worldOf<1, LimitsSolver>(s, false, true); s.label("limits"); break;
    }
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C30",
         "Constraint functions of a user (linear or curved, of 1 to 3 components, with bias and with bounds on impulses) solved by each "
         "solver over several steps with warm starts, damping, restitution, limits, and pushes of others between iterations, "
         "checked with the optimality conditions in double precision; compositions (and compositions of compositions) of up to 3 "
         "functions compared component by component; the same constraints in a World. Non-trivial: the solver acted on velocities and "
         "positions (solver, world); several functions whose bounds clamp (composition).",
         {"Gradients whose effective mass is well conditioned (below 25)", "LimitsSolver with one component, as documented",
          "No damping for InequalitySolver (documented as incorrect)", "Bounds on impulses of coupled equalities are left out"},
         {{"solver", solver, 300000, 10000000}, {"composition", composition, 100000, 3000000}, {"world", world, 60000, 2000000}}}
    );
}
