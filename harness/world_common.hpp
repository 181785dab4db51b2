// Worlds, bodies and their double precision references.
#pragma once
#include "gen.hpp"

#include "Simu/physics.hpp"

#include <map>
#include <memory>

using namespace simu;
using namespace gen;

struct RefCollider
{
    std::vector<Vec2> verts; // local space
    double            density = 1;
};

struct RefMass
{
    double m = 0, I = 0;
    D2     c{};
};

// by fans of triangles, around the first vertex for precision
inline RefMass refMass(const std::vector<Vec2>& v, double density)
{
    double a = 0, i0 = 0;
    D2     c{};
    D2     o = v[0];
    for (std::size_t k = 0; k < v.size(); ++k)
    {
        D2     p = D2(v[k]) - o, q = D2(v[(k + 1) % v.size()]) - o;
        double t = cross(p, q);
        a += t / 2;
        c += (p + q) * (t / 6);
        i0 += t * (dot(p, p) + dot(p, q) + dot(q, q)) / 12;
    }
    c = c / a;
    RefMass r;
    r.m = density * std::abs(a);
    r.c = c + o;
    r.I = density * std::abs(i0 - a * dot(c, c));
    return r;
}

inline RefMass combine(const std::vector<RefMass>& parts)
{
    RefMass r;
    for (const RefMass& p : parts)
    {
        r.m += p.m;
        r.c += p.c * p.m;
    }
    if (r.m == 0)
        return RefMass{};
    r.c = r.c / r.m;
    for (const RefMass& p : parts)
        r.I += p.I + p.m * dot(p.c - r.c, p.c - r.c);
    return r;
}

// convex or star-shaped polygon placed away from the origin of the body
inline std::vector<Vec2> localPolygon(Source& s, double reach = 4)
{
    std::vector<Vec2> v = convexAround(s, 0.4, 3);
    Vec2              o = s.chance(1, 3) ? Vec2{} : vec(s, reach);
    for (Vec2& p : v)
        p += o;
    if (s.chance(1, 4))
        std::reverse(v.begin(), v.end());
    return v;
}

inline ColliderDescriptor descriptor(const std::vector<Vec2>& v, const Material& m = Material{})
{
    return ColliderDescriptor{Polygon{v.begin(), v.end()}, m};
}

inline std::vector<Vec2> boxVerts(double w, double h, Vec2 o = Vec2{})
{
    return {
        o + Vec2{(float)(-w / 2), (float)(-h / 2)},
        o + Vec2{(float)(w / 2), (float)(-h / 2)},
        o + Vec2{(float)(w / 2), (float)(h / 2)},
        o + Vec2{(float)(-w / 2), (float)(h / 2)}};
}

inline Body* makeBody(World& w, const std::vector<Vec2>& verts, Vec2 pos, double theta = 0, double dominance = 1, const Material& m = Material{})
{
    BodyDescriptor d{};
    d.position    = pos;
    d.orientation = (float)theta;
    d.dominance   = (float)dominance;
    Body* b       = w.makeBody(d);
    b->addCollider(descriptor(verts, m));
    return b;
}

inline bool sameBox(const BoundingBox& a, const BoundingBox& b)
{
    return all(a.min() == b.min()) && all(a.max() == b.max());
}
