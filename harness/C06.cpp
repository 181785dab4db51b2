// C06: closest points on segments and triangles
// SOURCES: math
// FLAGS: ubsan cov
#include "gen.hpp"

#include "Simu/math/BarycentricCoordinates.hpp"

using namespace simu;
using namespace gen;

namespace
{

D2 closestOnSegment(D2 a, D2 b, D2 q)
{
    D2     ab = b - a;
    double n  = dot(ab, ab);
    double t  = n == 0 ? 0 : dot(q - a, ab) / n;
    t         = std::min(1.0, std::max(0.0, t));
    return a + ab * t;
}

Vec2 point(Source& s, double scale, Vec2 offset)
{
    switch (s.weighted({3, 3, 2}))
    {
        case 0: return Vec2{(float)s.integer(-4, 4), (float)s.integer(-4, 4)} * (float)scale + offset;
        case 1: return vec(s, 4) * (float)scale + offset;
        default:
        {
            Vec2 v = Vec2{(float)s.integer(-4, 4), (float)s.integer(-4, 4)} * (float)scale + offset;
            simu::Uint32 i = (simu::Uint32)s.index(2);
            v[i]           = std::nextafter(v[i], s.boolean() ? 1e9f : -1e9f);
            return v;
        }
    }
}

void line(Source& s)
{
    double scale = s.pick({1.0, 0.01, 1000.0});
    Vec2   off   = s.boolean() ? Vec2{} : vec(s, 20) * (float)scale;
    Vec2   a = point(s, scale, off), b = s.chance(1, 12) ? a : point(s, scale, off);
    Vec2   q = point(s, scale, off);
    if (s.chance(1, 4))
        q = a + (b - a) * s.f(-1, 2); // collinear
    s.note("A = ", a, " B = ", b, " Q = ", q);
    double mag = norm(a) + norm(b) + norm(q), tol = 1e-6 * mag + 1e-37;
    double len = norm(D2(b) - D2(a));

    LineBarycentric l{a, b, q};
    D2              e = closestOnSegment(a, b, q);
    if ((len > 1e-3 * mag && len > 1e-6) || len == 0) // shorter segments underflow
    {
        double k = len == 0 ? 1 : mag / len;
        PBT_CHECK(norm(D2(l.closestPoint) - e) <= tol * k, "closest point ", l.closestPoint, " instead of ", e);
        PBT_CHECK(close((double)l.u + l.v, 1, 1e-6 * (1 + std::abs((double)l.u))), "u + v = ", (double)l.u + l.v);
        if (len != 0)
        {
            double t = dot(D2(q) - D2(a), D2(b) - D2(a)) / (len * len);
            PBT_CHECK(close(l.v, t, 3e-6 * k * k), "v = ", l.v, " instead of ", t);
        }
        if (l.u >= 0 && l.v >= 0)
            PBT_CHECK(norm(D2(a) * (double)l.u + D2(b) * (double)l.v - D2(l.closestPoint)) <= tol,
                      "u A + v B = ", D2(a) * (double)l.u + D2(b) * (double)l.v, " is not the closest point ", l.closestPoint);
        s.labelIf(l.u > 0 && l.v > 0, "inside");
        s.labelIf(len == 0, "null segment");
        s.nontrivial(len != 0 && norm(e - D2(q)) > tol * k);
    }
}

void triangle(Source& s)
{
    double scale = s.pick({1.0, 0.01, 1000.0});
    Vec2   off   = s.boolean() ? Vec2{} : vec(s, 8) * (float)scale;
    Vec2   a = point(s, scale, off), b = point(s, scale, off), c = point(s, scale, off);
    Vec2   q = point(s, scale, off);
    switch (s.index(5))
    {
        case 0: q = s.pick({a, b, c}); break;
        case 1: q = a + (b - a) * s.f(-1, 2); break; // on the line of an edge
        case 2: q = a + (b - a) * s.f(0, 1) + (c - a) * s.f(0, 0.5f); break;
        default: break;
    }
    if (s.boolean())
        std::swap(a, c);
    double mag    = norm(a) + norm(b) + norm(c) + norm(q);
    double area   = cross(D2(b) - D2(a), D2(c) - D2(a)) / 2;
    double longest = std::max({norm(D2(b) - D2(a)), norm(D2(c) - D2(b)), norm(D2(a) - D2(c))});
    double shortest = std::min({norm(D2(b) - D2(a)), norm(D2(c) - D2(b)), norm(D2(a) - D2(c))});
    if (std::abs(area) < 2e-3 * longest * longest || shortest < 2e-2 * mag || std::abs(area) < 1e-4)
    {
        s.label("discarded: thin triangle");
        return;
    }
    s.note("A = ", a, " B = ", b, " C = ", c, " Q = ", q);
    double k   = mag / shortest * longest * longest / std::abs(area);
    double tol = 1e-6 * mag * std::max(4.0, k);

    TriangleBarycentric t{a, b, c, q};
    double              sign = area > 0 ? 1 : -1;
    double u = cross(D2(b) - D2(q), D2(c) - D2(q)) / 2 * sign, v = cross(D2(c) - D2(q), D2(a) - D2(q)) / 2 * sign,
           w  = cross(D2(a) - D2(q), D2(b) - D2(q)) / 2 * sign;
    double ta = 1e-6 * mag * mag;
    PBT_CHECK(close(t.u, u, ta) && close(t.v, v, ta) && close(t.w, w, ta), "areas {", t.u, ", ", t.v, ", ", t.w, "} instead of {", u, ", ", v, ", ", w, "}");
    PBT_CHECK(close((double)t.u + t.v + t.w, std::abs(area), ta * 3), "u + v + w = ", (double)t.u + t.v + t.w, " area = ", std::abs(area));
    D2   e      = q;
    bool inside = u >= 0 && v >= 0 && w >= 0;
    if (!inside)
    {
        double best = 1e300;
        for (D2 p : {closestOnSegment(a, b, q), closestOnSegment(b, c, q), closestOnSegment(c, a, q)})
            if (norm(p - D2(q)) < best)
                best = norm(p - D2(q)), e = p;
    }
    PBT_CHECK(norm(D2(t.closestPoint) - e) <= tol, "closest point ", t.closestPoint, " instead of ", e);
    if (u > ta && v > ta && w > ta)
        PBT_CHECK(all(t.closestPoint == q), "Q is inside, the closest point is ", t.closestPoint);
    LineBarycentric ab{a, b, q};
    PBT_CHECK(all(t.AB.closestPoint == ab.closestPoint) && t.AB.u == ab.u && t.AB.v == ab.v, "coordinates on AB");
    s.label(inside ? "inside" : norm(e - D2(a)) == 0 || norm(e - D2(b)) == 0 || norm(e - D2(c)) == 0 ? "vertex" : "edge");
    s.labelIf(area < 0, "negative orientation");
    s.nontrivial(!inside);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C06",
         "Segments and triangles (any winding) of three scales with query points on vertices, on the lines of edges, "
         "inside and outside, against closest points in double precision. Non-trivial: the query point is not its "
         "own closest point.",
         {"triangles that are not thin: area over 0.2% of the square of the longest side"},
         {{"line", line, 600000, 15000000, 5}, {"triangle", triangle, 1200000, 30000000, 5}}}
    );
}
