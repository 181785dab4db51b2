// C09: separation and penetration vectors
// SOURCES: math
// FLAGS: ubsan cov
#include "gjk_common.hpp"

#include "Simu/math/Gjk.hpp"

using namespace simu;
using namespace gen;

namespace
{

void run(Source& s, bool many)
{
    bool concave = false;
    Pair p       = shapes(s, concave, many);
    Vec2 dir     = s.chance(1, 6) ? Vec2{} : s.boolean() ? Vec2{(float)s.integer(-1, 1), (float)s.integer(-1, 1)} : vec(s, 8);
    s.note("first ", str(p.a), " second ", str(p.b), " from ", dir);

    std::vector<D2> m     = minkowskiDifference(asD(p.a), asD(p.b));
    HullDistance    r     = originTo(m);
    double          scale = polyRadius(asD(p.a)) + polyRadius(asD(p.b));
    double          tol = 3e-6 * scale, tolV = 2e-5 * scale;
    if (std::abs(r.signedDistance) < tol)
    {
        s.label("touching (skipped)");
        return;
    }

    Polygon      a{p.a.begin(), p.a.end()}, b{p.b.begin(), p.b.end()};
    Gjk<Polygon> gjk{a, b, dir};
    PBT_CHECK(gjk.areColliding() == (r.signedDistance < 0), "collision at ", r.signedDistance);
    Vec2 sep = gjk.separation(), pen = gjk.penetration();
    if (r.signedDistance > 0)
    {
        PBT_CHECK(all(pen == Vec2{}), "penetration ", pen, " of shapes that are apart");
        PBT_CHECK(close(norm(sep), r.signedDistance, tolV), "separation ", sep, " has norm ", norm(sep), " at a distance of ", r.signedDistance);
        PBT_CHECK(norm(D2(sep) + r.closest) <= tolV + 1e-3 * r.signedDistance, "separation ", sep, " instead of ", -r.closest);
    }
    else
    {
        PBT_CHECK(all(sep == Vec2{}), "separation ", sep, " of shapes that are in collision");
        PBT_CHECK(close(norm(pen), -r.signedDistance, tolV), "penetration ", pen, " has norm ", norm(pen), " instead of ", -r.signedDistance);
    }
    // translating by the vector makes them touch
    std::vector<D2> moved;
    for (D2 x : m)
        moved.push_back(r.signedDistance > 0 ? x + D2(sep) : x - D2(pen));
    double after = originTo(moved).signedDistance;
    PBT_CHECK(std::abs(after) <= tolV, "after the translation the distance is ", after);
    s.label(r.signedDistance > 0 ? "apart" : "colliding");
    s.labelIf(concave, "concave");
    s.nontrivial();
}

void vectors(Source& s)
{
    run(s, false);
}
void manyVertices(Source& s)
{
    run(s, true);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C09",
         "The pairs of C08; norms of the separation and penetration vectors against the distance from the origin to "
         "the hull of the Minkowski difference in double precision, and the distance after the translation. "
         "Non-trivial: the shapes are not touching.",
         {"shapes that touch within 3e-6 of their size are left out; vectors within 2e-5 of the size of the shapes"},
         {{"vectors", vectors, 400000, 12000000, 5}, {"round", manyVertices, 80000, 2500000, 5}}}
    );
}
