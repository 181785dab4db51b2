// C01: interval and bounding-box set algebra
// SOURCES: math bbox
// FLAGS: san cov
#include "gen.hpp"

#include "Simu/math/Interval.hpp"
#include "Simu/math/Polygon.hpp"
#include "Simu/physics/BoundingBox.hpp"

#include <array>
#include <list>

using namespace simu;
using namespace gen;

namespace
{

template <class T>
void interval(Source& s, T a, T b, T c, T d, T v)
{
    s.note("intervals [", a, ", ", b, "] [", c, ", ", d, "] value ", v);
    Interval<T> i{a, b}, j{c, d};
    bool contains = a <= v && v <= b;
    PBT_CHECK(i.contains(v) == contains, "contains is wrong");
    bool overlap = a <= b && c <= d && std::max(a, c) <= std::min(b, d);
    // the documentation says nothing about the overlap of a degenerate interval
    if (a <= b && c <= d)
    {
        PBT_CHECK(i.overlaps(j) == overlap, "reference says ", overlap);
        PBT_CHECK(j.overlaps(i) == overlap, "not symmetric");
    }
    s.labelIf(a > b || c > d, "degenerate");
    s.labelIf(overlap, "overlap");
    s.labelIf(overlap && (b == c || a == d), "touching");
    s.labelIf(!overlap, "disjoint");
    s.nontrivial(a <= b && c <= d && !(a == c && b == d));
}

void intervals(Source& s)
{
    switch (s.weighted({3, 2, 2}))
    {
        case 0:
        {
            // share end points often
            float p[4] = {anyFloat(s), anyFloat(s), anyFloat(s), anyFloat(s)};
            auto  c    = [&]() { return p[s.index(4)]; };
            float a = c(), b = c(), e = c(), d = c(), v = c();
            if (a > b && s.chance(3, 4))
                std::swap(a, b);
            if (e > d && s.chance(3, 4))
                std::swap(e, d);
            // what is not a number is in no interval
            if (s.chance(1, 20))
                v = std::numeric_limits<float>::quiet_NaN();
            interval<float>(s, a, b, e, d, v);
            break;
        }
        case 1:
        {
            auto c = [&]() {
                switch (s.weighted({4, 1, 1}))
                {
                    case 0: return (Int32)s.integer(-5, 5);
                    case 1: return (Int32)s.integer(INT32_MIN, INT32_MAX);
                    default: return s.boolean() ? INT32_MIN : INT32_MAX;
                }
            };
            Int32 a = c(), b = c(), e = c(), d = c(), v = c();
            if (a > b && s.chance(3, 4))
                std::swap(a, b);
            if (e > d && s.chance(3, 4))
                std::swap(e, d);
            interval<Int32>(s, a, b, e, d, v);
            break;
        }
        default:
        {
            // element-wise on vectors
            Vec2 q[5];
            for (auto& p : q)
                p = vec(s, 4);
            Interval<Vec2> i{q[0], q[1]}, j{q[2], q[3]};
            auto           c = i.contains(q[4]);
            auto           o = i.overlaps(j);
            s.note("vector intervals ", q[0], q[1], q[2], q[3], q[4]);
            for (Uint32 k = 0; k < 2; ++k)
            {
                bool contains = q[0][k] <= q[4][k] && q[4][k] <= q[1][k];
                bool overlap  = q[0][k] <= q[1][k] && q[2][k] <= q[3][k]
                            && std::max(q[0][k], q[2][k]) <= std::min(q[1][k], q[3][k]);
                PBT_CHECK(c[k] == contains, "component ", k);
                if (q[0][k] <= q[1][k] && q[2][k] <= q[3][k])
                    PBT_CHECK(o[k] == overlap, "component ", k);
                s.nontrivial(overlap);
            }
            s.label("vector");
        }
    }

    // approx(value, epsilon) is value +/- |epsilon|
    float v = s.f(-100, 100), e = s.f(-2, 2), x = s.f(-100, 100);
    if (s.boolean())
        x = v + e;
    auto ap = approx(v, e);
    PBT_CHECK(ap.contains(v), "approx misses its value ", v, " +/- ", e);
    double d = std::abs((double)x - (double)v), ae = std::abs((double)e);
    double slack = 1e-4;
    if (d < ae - slack)
        PBT_CHECK(ap.contains(x), "approx(", v, ", ", e, ") misses ", x);
    if (d > ae + slack)
        PBT_CHECK(!ap.contains(x), "approx(", v, ", ", e, ") contains ", x);
}

struct Ref
{
    float lo[2], hi[2];
    bool  valid() const { return lo[0] <= hi[0] && lo[1] <= hi[1]; }
};

Ref ref(const BoundingBox& b)
{
    return {{b.min()[0], b.min()[1]}, {b.max()[0], b.max()[1]}};
}

BoundingBox box(Source& s, const std::vector<float>& pool)
{
    auto  c  = [&]() { return s.chance(3, 4) ? pool[s.index(pool.size())] : anyFloat(s, 1e30f); };
    float x0 = c(), x1 = c(), y0 = c(), y1 = c();
    if (s.weighted({6, 1}) == 0)
    {
        if (x0 > x1)
            std::swap(x0, x1);
        if (y0 > y1)
            std::swap(y0, y1);
    }
    return BoundingBox{Vec2{x0, y0}, Vec2{x1, y1}};
}

bool refOverlap(const Ref& a, const Ref& b)
{
    if (!a.valid() || !b.valid())
        return false;
    for (int k = 0; k < 2; ++k)
        if (std::max(a.lo[k], b.lo[k]) > std::min(a.hi[k], b.hi[k]))
            return false;
    return true;
}
bool refContains(const Ref& a, const Ref& b)
{
    if (!a.valid() || !b.valid())
        return false;
    for (int k = 0; k < 2; ++k)
        if (b.lo[k] < a.lo[k] || b.hi[k] > a.hi[k])
            return false;
    return true;
}

std::string show(const BoundingBox& b) { return pbt::cat(b.min(), "-", b.max()); }

void boxes(Source& s)
{
    std::vector<float> pool;
    for (int i = 0; i < 6; ++i)
        pool.push_back(anyFloat(s, 1e30f));
    BoundingBox a = box(s, pool), b = box(s, pool), c = box(s, pool);
    s.note("boxes ", show(a), "  ", show(b), "  ", show(c));

    Ref ra = ref(a), rb = ref(b), rc = ref(c);
    PBT_CHECK(a.isValid() == ra.valid(), show(a));
    PBT_CHECK(a.overlaps(b) == refOverlap(ra, rb), show(a), " ", show(b));
    PBT_CHECK(b.overlaps(a) == refOverlap(ra, rb), "overlap is not symmetric");
    PBT_CHECK(a.contains(b) == refContains(ra, rb), show(a), " ", show(b));
    PBT_CHECK(a.overlaps(a) == a.isValid(), "a valid box overlaps itself");
    PBT_CHECK(a.contains(a) == a.isValid(), "a valid box contains itself");

    // equality
    bool same = (!ra.valid() && !rb.valid())
             || (ra.lo[0] == rb.lo[0] && ra.lo[1] == rb.lo[1] && ra.hi[0] == rb.hi[0]
                 && ra.hi[1] == rb.hi[1]);
    PBT_CHECK((a == b) == same, show(a), " ", show(b));
    PBT_CHECK((a != b) == !same, show(a), " ", show(b));

    // combined is the least box that covers both
    BoundingBox ab = a.combined(b);
    if (!ra.valid() || !rb.valid())
        PBT_CHECK(ab == (ra.valid() ? a : b), "an invalid box is ignored by combined");
    else
    {
        Ref r = ref(ab);
        for (int k = 0; k < 2; ++k)
        {
            PBT_CHECK(r.lo[k] == std::min(ra.lo[k], rb.lo[k]), show(ab));
            PBT_CHECK(r.hi[k] == std::max(ra.hi[k], rb.hi[k]), show(ab));
        }
        PBT_CHECK(ab.contains(a) && ab.contains(b), show(ab));
    }
    PBT_CHECK(ab == b.combined(a), "combined is not commutative");
    PBT_CHECK(ab.combined(c) == a.combined(b.combined(c)), "combined is not associative");
    // whatever overlaps a part overlaps the whole: what a bounding hierarchy needs
    if (c.overlaps(a) || c.overlaps(b))
        PBT_CHECK(c.overlaps(ab), "overlap is lost by combining ", show(c));

    s.labelIf(!ra.valid() || !rb.valid(), "invalid box");
    s.labelIf(refOverlap(ra, rb), "overlap");
    s.labelIf(refContains(ra, rb) && !same, "strictly contains");
    s.labelIf(
        refOverlap(ra, rb)
            && (ra.hi[0] == rb.lo[0] || rb.hi[0] == ra.lo[0] || ra.hi[1] == rb.lo[1]
                || rb.hi[1] == ra.lo[1]),
        "touching"
    );
    s.labelIf(ra.valid() && (ra.lo[0] == ra.hi[0] || ra.lo[1] == ra.hi[1]), "flat box");
    s.nontrivial(ra.valid() && rb.valid() && !same);
}

void scaledAndVertices(Source& s)
{
    // scaled
    double lim = s.pick({8.0, 1000.0, 1e5});
    Vec2   lo = vec(s, lim), hi = vec(s, lim);
    if (lo[0] > hi[0])
        std::swap(lo[0], hi[0]);
    if (lo[1] > hi[1])
        std::swap(lo[1], hi[1]);
    BoundingBox a{lo, hi};
    float       ratio = s.f(0, 4);
    BoundingBox sc    = BoundingBox::scaled(a, ratio);
    s.note("scaled(", show(a), ", ", ratio, ") = ", show(sc));
    double tol = 1e-6 * (1 + ratio) * (std::abs(lo[0]) + std::abs(lo[1]) + std::abs(hi[0]) + std::abs(hi[1]) + 1e-3);
    for (Uint32 k = 0; k < 2; ++k)
    {
        double c = ((double)lo[k] + hi[k]) / 2, h = ((double)hi[k] - lo[k]) / 2;
        PBT_CHECK(close(a.center()[k], c, tol), "center");
        PBT_CHECK(close(sc.min()[k], c - ratio * h, tol), "scaled min ", k, " ", show(sc));
        PBT_CHECK(close(sc.max()[k], c + ratio * h, tol), "scaled max ", k, " ", show(sc));
    }

    // from vertices
    long                n = s.size(0, 12);
    std::vector<Vertex> v;
    for (long i = 0; i < n; ++i)
        v.push_back(Vec2{anyFloat(s), anyFloat(s)});
    s.note("vertices ", gen::str(v));
    // the storage may hold anything before construction
    alignas(BoundingBox) unsigned char buf[sizeof(BoundingBox)];
    float                               junk = s.pick({0.f, -1.f, 5.f});
    for (std::size_t i = 0; i + sizeof junk <= sizeof buf; i += sizeof junk)
        std::memcpy(buf + i, &junk, sizeof junk);
    BoundingBox* bb = s.boolean() ? new (buf) BoundingBox(v.begin(), v.end()) : new (buf) BoundingBox(v);
    if (n == 0)
    {
        PBT_CHECK(!bb->isValid(), "a box around no vertices covers an area: ", show(*bb));
        s.label("no vertices");
        return;
    }
    float r[4] = {v[0][0], v[0][1], v[0][0], v[0][1]};
    for (Vec2 p : v)
    {
        r[0] = std::min(r[0], p[0]);
        r[1] = std::min(r[1], p[1]);
        r[2] = std::max(r[2], p[0]);
        r[3] = std::max(r[3], p[1]);
    }
    PBT_CHECK(
        bb->min()[0] == r[0] && bb->min()[1] == r[1] && bb->max()[0] == r[2] && bb->max()[1] == r[3],
        "box of vertices is ",
        show(*bb)
    );
    // other kinds of iterators
    std::list<Vertex> l(v.begin(), v.end());
    PBT_CHECK(BoundingBox(l.begin(), l.end()) == *bb, "list iterators");
    s.nontrivial(n >= 2);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C01",
         "Random intervals (float over the whole finite range, full-range int, Vec2 element-wise) and boxes whose "
         "coordinates come from a small pool so that they touch, nest and share edges; an exact ordering-only "
         "reference decides each predicate. Non-trivial: both intervals/boxes are valid and differ, or at least "
         "two vertices are boxed.",
         {"finite coordinates of boxes (no NaN or infinity)"},
         {{"interval", intervals, 300000, 6000000},
          {"box", boxes, 300000, 6000000},
          {"construct", scaledAndVertices, 150000, 3000000}}}
    );
}
