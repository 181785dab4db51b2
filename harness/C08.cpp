// C08: are two shapes in collision
// SOURCES: math
// FLAGS: ubsan cov
#include "gjk_common.hpp"

#include "Simu/math/Gjk.hpp"

using namespace simu;
using namespace gen;

namespace
{

void run(Source& s, bool many)
{
    bool concave = false;
    Pair p       = shapes(s, concave, many);
    Vec2 dir     = s.chance(1, 6) ? Vec2{} : s.boolean() ? Vec2{(float)s.integer(-1, 1), (float)s.integer(-1, 1)} : vec(s, 8);
    bool def     = s.chance(1, 3);
    s.note("first ", str(p.a), " second ", str(p.b), def ? "" : pbt::cat(" from ", dir));

    HullDistance r     = originTo(minkowskiDifference(asD(p.a), asD(p.b)));
    double       scale = polyRadius(asD(p.a)) + polyRadius(asD(p.b));
    double       tol   = 3e-6 * scale;

    Polygon a{p.a.begin(), p.a.end()}, b{p.b.begin(), p.b.end()};
    bool    c = def ? Gjk<Polygon>{a, b}.areColliding() : Gjk<Polygon>{a, b, dir}.areColliding();
    if (r.signedDistance > tol)
        PBT_CHECK(!c, "collision reported at a distance of ", r.signedDistance);
    else if (r.signedDistance < -tol)
        PBT_CHECK(c, "no collision reported for a penetration of ", -r.signedDistance);
    else
        s.label("touching (either answer)");
    // symmetry, and any other container
    if (std::abs(r.signedDistance) > tol)
    {
        bool sym = Gjk<Polygon>{b, a, dir}.areColliding();
        PBT_CHECK(sym == c, "not symmetric");
        std::vector<Vec2> va{p.a.rbegin(), p.a.rend()}, vb{p.b.begin(), p.b.end()};
        bool              vv = Gjk<std::vector<Vec2>>{va, vb, dir}.areColliding();
        PBT_CHECK(vv == c, "another order of the vertices changes the answer");
    }
    s.label(r.signedDistance > 0 ? "apart" : "colliding");
    s.labelIf(std::abs(r.signedDistance) < 0.05, "close to touching");
    s.labelIf(concave, "concave");
    s.nontrivial(std::abs(r.signedDistance) < 0.6 && std::abs(r.signedDistance) > tol);
}

void collides(Source& s)
{
    run(s, false);
}
void manyVertices(Source& s)
{
    run(s, true);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C08",
         "Pairs of convex and concave polygons (3 to 16 vertices; `round`: ellipses of 9 to 100) rotated and placed anywhere, aligned, concentric or "
         "at a chosen gap from touching, with any initial direction, against the position of the origin in the hull "
         "of their Minkowski difference in double precision. Non-trivial: gap or penetration below 0.6.",
         {"within 3e-6 of the size of the shapes of touching, either answer is accepted (single precision)"},
         {{"collides", collides, 400000, 12000000, 5}, {"round", manyVertices, 80000, 2500000, 5}}}
    );
}
