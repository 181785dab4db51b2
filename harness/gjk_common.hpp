// Convex shapes for GJK and the exact answer in double precision.
#pragma once
#include "gen.hpp"

#include "Simu/math/Polygon.hpp"

namespace gen
{

// signed distance from the origin to the boundary of the convex hull (negative inside),
// and the boundary point that is the closest
struct HullDistance
{
    double              signedDistance;
    D2                  closest;
    std::vector<D2>     hull_;
};

inline HullDistance originTo(const std::vector<D2>& h)
{
    HullDistance r{0, {}, h};
    double       best   = 1e300;
    bool         inside = h.size() >= 3;
    for (std::size_t i = 0; i < h.size(); ++i)
    {
        D2     a = h[i], b = h[(i + 1) % h.size()], ab = b - a;
        double n = dot(ab, ab);
        double t = n == 0 ? 0 : std::min(1.0, std::max(0.0, -dot(a, ab) / n));
        D2     c = a + ab * t;
        if (norm(c) < best)
            best = norm(c), r.closest = c;
        if (cross(ab, -a) < 0)
            inside = false;
    }
    r.signedDistance = inside ? -best : best;
    return r;
}

// first - second
inline std::vector<D2> minkowskiDifference(const std::vector<D2>& a, const std::vector<D2>& b)
{
    std::vector<D2> m;
    for (D2 p : a)
        for (D2 q : b)
            m.push_back(p - q);
    return hull(m);
}

// A pair of shapes in an interesting relative position.
struct Pair
{
    std::vector<Vec2> a, b;
};

inline std::vector<Vec2> shape(Source& s, bool& concave)
{
    std::vector<Vec2> v = convexAround(s, 0.25, 4);
    if (s.chance(1, 4))
    {
        // a star: only the hull matters
        concave = true;
        std::vector<Vec2> w;
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            w.push_back(v[i]);
            w.push_back((v[i] + v[(i + 1) % v.size()]) * s.f(0.1f, 0.45f));
        }
        v = w;
    }
    return v;
}

// an ellipse with many vertices, evenly or unevenly spread
inline std::vector<Vec2> roundShape(Source& s)
{
    std::vector<Vec2> v;
    long              n = s.pick({9L, 12L, 16L, 24L, 32L, 48L, 64L, 100L});
    double            a = s.real(0.5, 4), b = s.boolean() ? a : a * s.real(0.3, 1), uneven = s.boolean() ? 0 : s.real(0, 0.6), off = s.real(0, 1);
    for (long i = 0; i < n; ++i)
    {
        double t = off + 2 * M_PI * ((double)i + uneven * s.uniform(0, 1)) / (double)n;
        v.push_back(Vec2{(float)(a * std::cos(t)), (float)(b * std::sin(t))});
    }
    return v;
}

inline Pair shapes(Source& s, bool& concave, bool many = false)
{
    Pair p;
    p.a = many ? roundShape(s) : shape(s, concave);
    p.b = s.chance(1, 5) ? p.a : many && s.chance(2, 3) ? roundShape(s) : shape(s, concave);
    double ta = s.chance(1, 2) ? 0 : s.boolean() ? M_PI / 4 * (double)s.integer(-4, 4) : s.real(-4, 4);
    double tb = s.chance(1, 2) ? 0 : s.boolean() ? M_PI / 4 * (double)s.integer(-4, 4) : s.real(-4, 4);
    D2     oa = s.boolean() ? D2{} : D2{s.real(-20, 20), s.real(-20, 20)};
    D2     ob{};
    switch (s.weighted({3, 3, 4, 1}))
    {
        case 0: ob = oa + D2{s.real(-6, 6), s.real(-6, 6)}; break;   // anywhere near
        case 1: ob = oa + D2{(double)s.integer(-8, 8) / 2, (double)s.integer(-8, 8) / 2}; break; // aligned
        case 2:
        {
            // at a chosen distance from touching, along some direction
            double t = s.boolean() ? M_PI / 4 * (double)s.integer(0, 7) : s.real(0, 6.3);
            D2     u{std::cos(t), std::sin(t)};
            std::vector<D2> ra, rb;
            for (Vec2 v : p.a)
                ra.push_back(rot(v, ta));
            for (Vec2 v : p.b)
                rb.push_back(rot(v, tb));
            double sa = -1e300, sb = -1e300;
            for (D2 v : ra)
                sa = std::max(sa, dot(v, u));
            for (D2 v : rb)
                sb = std::max(sb, -dot(v, u));
            double gap = s.pick({0.01, -0.01, 0.1, -0.1, 1e-3, -1e-3, 0.5, -0.5, 0.0});
            D2     side = perp(u) * s.real(-2, 2);
            ob          = oa + u * (sa + sb + gap) + side;
            break;
        }
        default: ob = oa; break; // concentric
    }
    // of any size
    double size = s.chance(3, 4) ? 1 : s.pick({1e-4, 1e-3, 1e-2, 0.1, 100., 1e4});
    for (Vec2& v : p.a)
        v = toVec((rot(v, ta) + oa) * size);
    for (Vec2& v : p.b)
        v = toVec((rot(v, tb) + ob) * size);
    return p;
}

} // namespace gen
