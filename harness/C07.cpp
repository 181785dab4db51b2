// C07: polygons and their geometric properties
// SOURCES: math
// FLAGS: san cov
#include "gen.hpp"

#include "Simu/math/Edges.hpp"
#include "Simu/math/Polygon.hpp"

#include <list>

using namespace simu;
using namespace gen;

namespace
{

struct Props
{
    double area = 0, moment = 0;
    D2     centroid{};
    double tolArea = 0;
};

// fan of triangles from the first vertex: another decomposition than the code's
Props reference(const std::vector<D2>& v)
{
    Props p;
    D2    c0 = v[0];
    double polar = 0;
    D2     first{};
    for (std::size_t i = 1; i + 1 < v.size(); ++i)
    {
        D2     a = v[i] - c0, b = v[i + 1] - c0;
        double t = cross(a, b) / 2;
        p.area += t;
        first += (a + b) * (t / 3);
        polar += t * (dot(a, a) + dot(a, b) + dot(b, b)) / 6;
    }
    p.centroid = c0 + first / p.area;
    p.moment   = std::abs(polar - p.area * dot(first / p.area, first / p.area));
    return p;
}

// a simple polygon: vertices at increasing angles around a point (star-shaped), convex or not,
// or a box with a box hole attached at a vertex
std::vector<Vec2> simple(Source& s, std::string& kind)
{
    std::vector<Vec2> v;
    double            scale = s.pick({1.0, 0.1, 30.0});
    switch (s.weighted({3, 5, 2}))
    {
        case 0: v = convexAround(s), kind = "convex"; break;
        case 1:
        {
            long n = s.integer(3, 10);
            for (long i = 0; i < n; ++i)
            {
                double t = 2 * M_PI * ((double)i + 0.7 * s.uniform(0, 1)) / (double)n;
                double r = s.real(0.3, 3);
                v.push_back(Vec2{(float)(r * std::cos(t)), (float)(r * std::sin(t))});
            }
            kind = "star-shaped";
            break;
        }
        default:
        {
            double w = s.real(1, 4), h = s.real(1, 4), k = s.real(0.2, 0.9);
            float  W = (float)w, H = (float)h, K = (float)k;
            // outer counter-clockwise, hole clockwise, bridge between the first vertices
            v    = {Vec2{-W, -H}, Vec2{W, -H}, Vec2{W, H}, Vec2{-W, H}, Vec2{-W, -H},
                    Vec2{-W * K, -H * K}, Vec2{-W * K, H * K}, Vec2{W * K, H * K}, Vec2{W * K, -H * K}, Vec2{-W * K, -H * K}};
            kind = "hole";
        }
    }
    Vec2 off = s.boolean() ? Vec2{} : vec(s, 6);
    for (Vec2& p : v)
        p = (p + off) * (float)scale;
    std::rotate(v.begin(), v.begin() + (long)s.index(v.size()), v.end());
    return v;
}

void polygon(Source& s)
{
    std::string       kind;
    std::vector<Vec2> v = simple(s, kind);
    bool              reversed = s.boolean();
    if (reversed)
        std::reverse(v.begin(), v.end());
    s.note(kind, " ", str(v));
    Props  r   = reference(asD(v));
    double rad = polyRadius(asD(v));
    if (std::abs(r.area) < 0.02 * rad * rad)
    {
        s.label("discarded: small far away");
        return;
    }
    double tolA = 2e-6 * (double)v.size() * rad * rad, k = rad * rad / std::abs(r.area);
    double tolC = 4e-6 * (double)v.size() * rad * k * k, tolM = 4e-6 * (double)v.size() * rad * rad * rad * rad * k * k;

    GeometricProperties g = GeometricProperties{v};
    PBT_CHECK(close(g.area, r.area, tolA), "signed area ", g.area, " instead of ", r.area);
    PBT_CHECK(norm(D2(g.centroid) - r.centroid) <= tolC, "centroid ", g.centroid, " instead of ", r.centroid);
    PBT_CHECK(close(g.momentOfArea, r.moment, tolM), "moment of area ", g.momentOfArea, " instead of ", r.moment);
    PBT_CHECK(!g.isDegenerate, "reported degenerate");

    std::list<Vec2>     asList{v.begin(), v.end()};
    GeometricProperties gl = GeometricProperties{asList};
    PBT_CHECK(gl.area == g.area && all(gl.centroid == g.centroid) && gl.momentOfArea == g.momentOfArea, "the container matters");

    Polygon             p = s.boolean() ? Polygon{v.begin(), v.end()} : Polygon{asList.begin(), asList.end()};
    GeometricProperties gp = p.properties();
    PBT_CHECK(close(gp.area, std::abs(r.area), tolA), "polygon area ", gp.area, " instead of ", std::abs(r.area));
    PBT_CHECK(norm(D2(gp.centroid) - r.centroid) <= tolC, "polygon centroid ", gp.centroid, " instead of ", r.centroid);
    PBT_CHECK(close(gp.momentOfArea, r.moment, tolM), "polygon moment of area ", gp.momentOfArea, " instead of ", r.moment);
    // vertices: the same cyclic sequence, positively oriented
    std::vector<Vec2> pv{p.begin(), p.end()};
    PBT_CHECK(pv.size() == v.size(), "number of vertices");
    PBT_CHECK(polyArea(asD(pv)) > 0, "the vertices are not positively oriented: ", str(pv));
    std::vector<Vec2> expect = v;
    if (r.area < 0)
        std::reverse(expect.begin(), expect.end());
    bool found = false;
    for (std::size_t i = 0; i < v.size() && !found; ++i)
    {
        std::vector<Vec2> e = expect;
        std::rotate(e.begin(), e.begin() + (long)i, e.end());
        found = std::equal(e.begin(), e.end(), pv.begin(), [](Vec2 a, Vec2 b) { return all(a == b); });
    }
    PBT_CHECK(found, "vertices ", str(pv), " are not the input in order");
    auto view = p.vertexView();
    PBT_CHECK((std::size_t)std::distance(view.begin(), view.end()) == pv.size() && all(*view.begin() == pv[0]), "vertex view");

    // invariances: translation, rotation by a quarter turn, scaling by 2
    {
        std::vector<Vec2> q;
        for (Vec2 x : pv)
            q.push_back(Vec2{-x[1], x[0]} * 2.f);
        GeometricProperties gq = GeometricProperties{q};
        PBT_CHECK(close(gq.area, 4 * gp.area, 8 * tolA) && close(gq.momentOfArea, 16 * gp.momentOfArea, 32 * tolM)
                      && norm(D2(gq.centroid) - D2{-2 * (double)gp.centroid[1], 2 * (double)gp.centroid[0]}) <= 4 * tolC,
                  "properties do not follow a rotation and a scaling");
    }
    s.label(kind);
    s.labelIf(reversed, "negative input");
    s.nontrivial(kind != "convex" || reversed);
}

void box(Source& s)
{
    Vec2   dim{s.f(0.1f, 20), s.f(0.1f, 20)}, c = vec(s, 20);
    bool   def = s.chance(1, 3);
    Polygon p = def ? Polygon::box(dim) : Polygon::box(dim, c);
    if (def)
        c = Vec2{};
    s.note("box ", dim, " at ", c);
    double w = dim[0], h = dim[1], rad = norm(c) + norm(dim);
    double k = rad * rad / (w * h);
    GeometricProperties g = p.properties();
    PBT_CHECK(close(g.area, w * h, 1e-5 * rad * rad), "area ", g.area, " of ", dim);
    if (k < 100)
        PBT_CHECK(norm(D2(g.centroid) - D2(c)) <= 1e-5 * rad * k * k, "centroid ", g.centroid, " instead of ", c);
    PBT_CHECK(close(g.momentOfArea, w * h * (w * w + h * h) / 12, 1e-5 * rad * rad * rad * rad * std::max(1.0, k * k)), "moment of area ", g.momentOfArea);
    PBT_CHECK(std::distance(p.begin(), p.end()) == 4, "vertices");
    bool corners[4] = {};
    for (Vec2 v : p)
        for (int i = 0; i < 4; ++i)
            if (norm(D2(v) - (D2(c) + D2{i % 2 ? w / 2 : -w / 2, i / 2 ? h / 2 : -h / 2})) <= 1e-6 * rad)
                corners[i] = true;
    PBT_CHECK(corners[0] && corners[1] && corners[2] && corners[3], "corners");
    s.nontrivial(!def);
}

void edges(Source& s)
{
    // a convex polygon: edges, their normals, and sides
    std::vector<Vec2> v = convexAround(s);
    Vec2              off = s.boolean() ? Vec2{} : vec(s, 6);
    for (Vec2& p : v)
        p = p + off;
    Polygon p{v.begin(), v.end()};
    s.note(str(v));
    auto                         es = edgesOf(p);
    std::vector<std::pair<Vec2, Vec2>> seen;
    D2                           centroid = p.properties().centroid;
    double                       rad      = polyRadius(asD(v));
    for (auto e = es.begin(); e != es.end(); ++e)
    {
        PBT_CHECK(seen.size() < v.size(), "more edges than vertices");
        seen.push_back({e->from(), e->to()});
        PBT_CHECK(all(e->direction() == e->to() - e->from()), "direction");
        D2 n = e->normal(), d = e->direction();
        PBT_CHECK(close(dot(n, d), 0, 1e-6 * norm(d) * norm(d)), "normal ", n, " is not perpendicular to ", d);
        PBT_CHECK(dot(n, centroid - D2(e->from())) < 0, "normal ", n, " does not point outwards");
        PBT_CHECK(close(norm(e->normalizedNormal()), 1, 1e-5), "normalized normal");
        // sides
        Vec2   q    = vec(s, 12);
        double side = dot(n, D2(q) - D2(e->to())), tol = 1e-5 * norm(n) * (rad + 12);
        if (std::abs(side) > tol)
            PBT_CHECK(e->isOutside(q) == (side > 0) && e->isInside(q) == (side < 0), q, " and the edge ", e->from(), " -> ", e->to());
        // distance
        D2     a = e->from(), b = e->to();
        double t = std::min(1.0, std::max(0.0, dot(D2(q) - a, b - a) / dot(b - a, b - a)));
        double ds = norm(a + (b - a) * t - D2(q));
        PBT_CHECK(close(e->distanceSquaredToPoint(q), ds * ds, 1e-5 * (rad + 12) * (rad + 12)), "distance to ", q);
        double t0 = std::min(1.0, std::max(0.0, dot(-a, b - a) / dot(b - a, b - a)));
        double d0 = norm(a + (b - a) * t0);
        PBT_CHECK(close(e->distanceSquaredToOrigin(), d0 * d0, 1e-5 * (rad + 12) * (rad + 12)), "distance to the origin");
        // neighbours: cyclic
        auto nx = es.next(e), pv = es.previous(e);
        PBT_CHECK(all(nx->from() == e->to()), "next of ", e->from(), " -> ", e->to(), " starts at ", nx->from());
        PBT_CHECK(all(pv->to() == e->from()), "previous of ", e->from(), " -> ", e->to(), " ends at ", pv->to());
        PBT_CHECK(es.next(pv) == e && es.previous(nx) == e, "next and previous are not inverses");
    }
    PBT_CHECK(seen.size() == v.size(), "there are ", seen.size(), " edges for ", v.size(), " vertices");
    for (std::size_t i = 0; i < seen.size(); ++i)
        PBT_CHECK(all(seen[i].second == seen[(i + 1) % seen.size()].first), "edges are not chained");

    // clipping a segment by the line of another edge
    {
        std::vector<Vec2> seg{vec(s, 8), vec(s, 8), vec(s, 8), vec(s, 8)};
        auto              se = edgesOf(seg);
        auto              it = se.begin();
        auto              e1 = *++it;
        ++it;
        auto              e2 = *++it;
        D2                d1 = e1.direction(), d2 = e2.direction();
        double            cr = cross(d1, d2);
        if (std::abs(cr) > 0.05 * norm(d1) * norm(d2) && norm(d1) > 0.1 && norm(d2) > 0.1)
        {
            double t = cross(D2(e2.from()) - D2(e1.from()), d2) / cr;
            t        = std::min(1.0, std::max(0.0, t));
            D2   x   = D2(e1.from()) + d1 * t;
            Vec2 y   = e1.clipInside(e2);
            PBT_CHECK(norm(D2(y) - x) <= 1e-3, "clipping ", e1.from(), " -> ", e1.to(), " by ", e2.from(), " -> ", e2.to(), ": ", y, " instead of ", x);
            s.label("clip");
        }
    }
    // support
    Vec2 dir = vec(s, 5);
    if (dir[0] != 0 || dir[1] != 0)
    {
        Vec2   f    = furthestVertexInDirection(p, dir);
        double best = -1e300;
        bool   isV  = false;
        for (Vec2 x : p)
            best = std::max(best, dot(D2(x), D2(dir))), isV = isV || all(x == f);
        PBT_CHECK(isV, "the furthest vertex ", f, " is not a vertex");
        PBT_CHECK(dot(D2(f), D2(dir)) >= best - 1e-6 * rad * norm(dir), "furthest vertex ", f, " in ", dir);
    }
    // orientation
    {
        Vec2   a = vec(s, 6), b = vec(s, 6), c = vec(s, 6);
        if (s.chance(1, 4))
            c = a + (b - a) * 2.f;
        double cr = cross(D2(b) - D2(a), D2(c) - D2(b));
        float  eps = s.chance(1, 2) ? s.f(0, 2) : -1;
        Orientation o = eps < 0 ? orientation(a, b, c) : orientation(a, b, c, eps);
        double     e = eps < 0 ? (double)EPSILON : (double)eps, tol = 2e-5;
        if (cr > e + tol)
            PBT_CHECK(o == Orientation::positive, "orientation of ", a, b, c);
        else if (cr < -e - tol)
            PBT_CHECK(o == Orientation::negative, "orientation of ", a, b, c);
        else if (std::abs(cr) < e - tol)
            PBT_CHECK(o == Orientation::collinear, "orientation of ", a, b, c, " with epsilon ", e);
    }
    s.nontrivial(v.size() > 3);
}

// vertices that do not make a polygon are refused
void refused(Source& s)
{
    long              n = s.integer(0, 3);
    std::vector<Vec2> v;
    for (long i = 0; i < n; ++i)
        v.push_back(vec(s, 4));
    bool thrown = false;
    try
    {
        Polygon p{v.begin(), v.end()};
    }
    catch (const simu::Exception&)
    {
        thrown = true;
    }
    PBT_CHECK(thrown == (n < 3), n, " vertices");
    // collinear
    Vec2                d{(float)s.integer(-4, 4), (float)s.integer(-4, 4)};
    std::vector<Vec2>   l{d, d * 2.f, d * (float)s.integer(3, 9)};
    GeometricProperties g = GeometricProperties{l};
    PBT_CHECK(g.area == 0 && g.isDegenerate, "collinear vertices ", str(l), " have an area of ", g.area);
    s.nontrivial(n < 3);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C07",
         "Simple polygons (convex, star-shaped with 3 to 10 vertices, boxes with an attached hole) of either "
         "orientation, starting vertex, scale and position, against areas, centroids and moments computed from "
         "another decomposition in double precision; edge walks, clipping, support vertices and orientations. "
         "Non-trivial: concave, holed or negatively oriented.",
         {"polygons do not self-intersect; tolerances relative to the distance of the vertices to the origin (single precision)"},
         {{"polygon", polygon, 120000, 4000000, 5},
          {"box", box, 100000, 2000000, 5},
          {"edges", edges, 120000, 4000000, 5},
          {"refused", refused, 20000, 200000, 5}}}
    );
}
