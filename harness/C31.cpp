// C31: worlds of many bodies
// SOURCES: math physics
// FLAGS: ubsan cov
#include "world_common.hpp"

namespace
{

const double g = 10;

double energy(const World& w, double floor)
{
    double e = 0;
    for (const Body& b : w.bodies())
        if (!b.isStructural())
        {
            D2 v = D2(b.velocity());
            e += 0.5 * b.mass() * dot(v, v) + 0.5 * b.inertia() * b.angularVelocity() * b.angularVelocity()
                 + b.mass() * g * (b.centroid()[1] - floor);
        }
    return e;
}

double totalMass(const World& w)
{
    double m = 0;
    for (const Body& b : w.bodies())
        if (!b.isStructural())
            m += b.mass();
    return m;
}

std::vector<D2> corners(const Collider& c)
{
    std::vector<D2> v;
    for (Vec2 p : c)
        v.push_back(D2(p));
    return v;
}

// least overlap along the normals of two convex shapes, negative when apart
double overlap(const std::vector<D2>& a, const std::vector<D2>& b)
{
    double least = 1e30;
    for (int k = 0; k < 2; ++k)
    {
        auto& p = k ? b : a;
        for (std::size_t i = 0; i < p.size(); ++i)
        {
            D2 e = p[(i + 1) % p.size()] - p[i];
            if (norm(e) == 0)
                continue;
            D2     n = perp(e) / norm(e);
            double alo = 1e30, ahi = -1e30, blo = 1e30, bhi = -1e30;
            for (D2 q : a)
                alo = std::min(alo, dot(q, n)), ahi = std::max(ahi, dot(q, n));
            for (D2 q : b)
                blo = std::min(blo, dot(q, n)), bhi = std::max(bhi, dot(q, n));
            least = std::min(least, std::min(ahi - blo, bhi - alo));
        }
    }
    return least;
}

double deepest(const World& w)
{
    std::vector<std::pair<const Body*, std::vector<D2>>> all;
    double                                                d = 0;
    for (const Body& b : w.bodies())
        for (const Collider& c : b.colliders())
            all.push_back({&b, corners(c)});
    for (std::size_t i = 0; i < all.size(); ++i)
        for (std::size_t j = 0; j < i; ++j)
            if (all[i].first != all[j].first && !(all[i].first->isStructural() && all[j].first->isStructural()))
                d = std::max(d, overlap(all[i].second, all[j].second));
    return d;
}

double fastest(const World& w)
{
    double v = 0;
    for (const Body& b : w.bodies())
        v = std::max(v, norm(D2(b.velocity())));
    return v;
}

Body* container(World& w, double half, double thick, double height, const Material& m, bool lid)
{
    BodyDescriptor d{};
    d.dominance = 0;
    Body* b     = w.makeBody(d);
    auto  wall  = [&](double x, double y, double a, double c) {
        b->addCollider(descriptor(boxVerts(a, c, toVec(D2{x, y})), m));
    };
    wall(0, -thick / 2, 2 * half + 2 * thick, thick);
    wall(-half - thick / 2, height / 2, thick, height);
    wall(half + thick / 2, height / 2, thick, height);
    if (lid)
        wall(0, height + thick / 2, 2 * half + 2 * thick, thick);
    return b;
}

void finiteWorld(const World& w, long step)
{
    for (const Body& b : w.bodies())
        PBT_CHECK(finite(b.position()) && finite(b.velocity()) && std::isfinite(b.orientation()) && std::isfinite(b.angularVelocity()),
                  "step ", step, ": a body is at ", b.position(), " with velocity ", b.velocity());
}

void pile(Source& s)
{
    World world{};
    world.makeForceField<Gravity>(Vec2{0, (float)-g});
    double   half = s.real(5, 9), height = 40;
    Material wallM{}, m{};
    wallM.friction.value = s.f(0, 0.9f);
    m.friction.value     = s.f(0, 0.9f);
    m.bounciness.value   = s.chance(1, 3) ? s.f(0, 0.5f) : 0.f;
    m.density            = s.f(0.2f, 5);
    container(world, half, 5, height, wallM, true);
    long               n = s.integer(1, 12);
    bool               alike = s.chance(1, 3);
    std::vector<Body*> bodies;
    double             x = -half + 1.5, y = 1.6;
    for (long i = 0; i < n; ++i)
    {
        auto verts = alike ? boxVerts(s.real(0.7, 1.1), s.real(0.7, 1.1)) : convexAround(s, 0.4, 1.2);
        D2   at{x, y};
        Body* b = makeBody(world, verts, toVec(at), 0, 1, m);
        b->setVelocity(vec(s, 5));
        b->setAngularVelocity(s.f(-3, 3));
        bodies.push_back(b);
        x += 3;
        if (x > half - 1.4)
            x = -half + 1.5, y += 3;
    }
    double start = energy(world, 0), mass = totalMass(world), worst = 0, deep = 0;
    float  dt = 1.f / 60;
    long   steps = 400;
    double least = start;
    for (long i = 0; i < steps; ++i)
    {
        world.step(dt);
        finiteWorld(world, i);
        for (Body* b : bodies)
        {
            Vec2 c = b->centroid();
            PBT_CHECK(std::abs(c[0]) < half + 1 && c[1] > -1 && c[1] < height + 1, "step ", i, ": a body left the container, it is at ", c);
        }
        double e = energy(world, 0);
        worst    = std::max(worst, (e - least) / (mass * g));
        least    = std::min(least, e);
        PBT_CHECK(worst <= 1.5, "step ", i, ": the energy grew by ", worst, " per weight since it was ", least);
    }
    deep = deepest(world);
    // a light body under a heavy one is pressed into the floor
    double heavy = 0, light = 1e30;
    for (Body* b : bodies)
        heavy = std::max(heavy, (double)b->mass()), light = std::min(light, (double)b->mass());
    s.labelIf(heavy < 4 * light, "similar masses");
    PBT_CHECK(deep <= (heavy < 4 * light ? 0.12 : 0.6), "bodies of a pile overlap by ", deep, " after ", steps, " steps");
    s.nontrivial(n > 3);
}

void pyramid(Source& s)
{
    World world{};
    world.makeForceField<Gravity>(Vec2{0, (float)-g});
    Material m{};
    m.friction.value = s.f(0.3f, 0.9f);
    m.density        = s.f(0.2f, 5);
    BodyDescriptor d{};
    d.dominance = 0;
    world.makeBody(d)->addCollider(descriptor(boxVerts(100, 10, Vec2{0, -5}), m));
    long   n = s.integer(1, 8);
    double w = s.real(1, 3), h = s.real(0.5, 1.2) * w, gap = s.real(0, 0.4) * w, fall = s.boolean() ? 0 : s.real(0, 0.3);
    std::vector<std::pair<Body*, D2>> all;
    for (long y = 0; y < n; ++y)
        for (long x = 0; x < n - y; ++x)
        {
            D2 at{(w + gap) * ((double)x + 0.5 * (double)y), (h + fall) * (double)y + h / 2 + fall};
            D2 end{at.x, h * (double)y + h / 2};
            all.push_back({makeBody(world, boxVerts(w, h), toVec(at), 0, 1, m), end});
        }
    for (long i = 0; i < 300; ++i)
    {
        world.step(1.f / 60);
        finiteWorld(world, i);
    }
    double off = 0, turned = 0;
    for (auto& [b, at] : all)
    {
        off    = std::max(off, norm(D2(b->centroid()) - at));
        turned = std::max(turned, std::abs((double)b->orientation()));
    }
    PBT_CHECK(off <= 0.5 && turned <= 0.06, "a box of a pyramid moved by ", off, " and turned by ", turned);
    PBT_CHECK(deepest(world) <= 0.04, "boxes of a pyramid overlap by ", deepest(world));
    PBT_CHECK(fastest(world) <= 1, "a box of a pyramid still moves by ", fastest(world));
    s.nontrivial(n > 2);
}

void pendulum(Source& s)
{
    World world{};
    world.makeForceField<Gravity>(Vec2{0, (float)-g});
    long           n = s.integer(1, 5);
    double         r = s.real(0.5, 1.5), l = s.real(2, 8), gap = s.real(0.05, 0.3) * r;
    BodyDescriptor d{};
    d.dominance = 0;
    Body* bar   = world.makeBody(d);
    bar->addCollider(descriptor(boxVerts(40, 1, Vec2{0, (float)(r + l + 0.5)})));
    Material m{};
    m.density          = s.f(0.5f, 10);
    m.bounciness.value = s.pick({1.f, 0.5f, 0.f});
    long              k = s.integer(8, 32);
    std::vector<Vec2> circle;
    for (long i = 0; i < k; ++i)
        circle.push_back(toVec(rot(D2{r, 0}, 6.283185307 * (double)i / (double)k)));
    std::vector<std::pair<Body*, D2>> balls;
    bool                               both = s.boolean();
    for (long i = 0; i < n; ++i)
    {
        double x = (2 * r + gap) * (double)i;
        Body*  b = makeBody(world, circle, toVec(D2{x, 0}), 0, 1, m);
        D2     p{x, r}, q{x, r + l};
        world.makeConstraint<DistanceConstraint>(Bodies{b, bar}, std::array<Vec2, 2>{toVec(p), toVec(q)}, both ? std::optional<float>{(float)l} : std::nullopt,
                                                 std::optional<float>{(float)l}, false);
        balls.push_back({b, q});
        if (s.boolean())
            b->setVelocity(Vec2{s.f(-1, 1) * (float)std::sqrt(g * l), 0});
    }
    double start = energy(world, 0), mass = totalMass(world), worst = 0, longest = 0;
    for (long i = 0; i < 300; ++i)
    {
        world.step(1.f / 60);
        finiteWorld(world, i);
        for (auto& [b, q] : balls)
        {
            Position p{b->position(), b->orientation(), b->localCentroid()};
            D2       at = D2(p.toWorldSpace() * Vec2{0, (float)r});
            longest     = std::max(longest, norm(at - q) - l);
        }
        worst = std::max(worst, energy(world, 0) - start);
    }
    // documented: bouncing with several others at once is not exact
    bool exact = n < 3 || m.bounciness.value == 0;
    s.labelIf(exact && n > 1, "exact bounces");
    PBT_CHECK(worst <= (exact ? 0.08 : 1.5) * mass * g, "the energy of pendulums grew by ", worst, " for a mass of ", mass);
    PBT_CHECK(longest <= (exact ? 0.2 : 0.5), "a string is longer by ", longest);
    s.nontrivial(n > 1);
}

void bridge(Source& s)
{
    World world{};
    world.makeForceField<Gravity>(Vec2{0, (float)-g});
    long           n = s.integer(1, 8);
    double         w = s.real(0.8, 2), h = s.real(0.2, 0.6);
    bool           fixedEnd = s.boolean();
    BodyDescriptor d{};
    d.dominance = 0;
    Body* left  = world.makeBody(d);
    left->addCollider(descriptor(boxVerts(1, 1, Vec2{-0.5f - (float)w / 2, 0})));
    Material m{};
    m.density = s.f(0.2f, 5);
    struct Link
    {
        Body *a, *b;
        Vec2  p, q;
    };
    std::vector<Link> links;
    Body*             last = left;
    auto              join = [&](Body* a, Body* b, D2 p) {
        world.makeConstraint<HingeConstraint>(Bodies{a, b}, toVec(p));
        links.push_back({a, b, toVec(p), toVec(p)});
    };
    std::vector<Body*> parts;
    for (long i = 0; i < n; ++i)
    {
        Body* b = makeBody(world, boxVerts(w, h), toVec(D2{w * (double)i, 0}), 0, 1, m);
        join(last, b, D2{w * (double)i - w / 2, 0});
        last = b;
        parts.push_back(b);
    }
    if (fixedEnd)
    {
        Body* right = world.makeBody(d);
        right->addCollider(descriptor(boxVerts(1, 1, Vec2{(float)(w * (double)n - w / 2) + 0.5f, 0})));
        join(last, right, D2{w * (double)n - w / 2, 0});
    }
    for (Link& l : links)
    {
        l.p = Position{l.a->position(), l.a->orientation(), l.a->localCentroid()}.toLocalSpace() * l.p;
        l.q = Position{l.b->position(), l.b->orientation(), l.b->localCentroid()}.toLocalSpace() * l.q;
    }
    double start = energy(world, 0), mass = totalMass(world), worst = 0, gapMax = 0;
    for (long i = 0; i < 300; ++i)
    {
        world.step(1.f / 60);
        finiteWorld(world, i);
        for (Link& l : links)
        {
            D2 p = D2(Position{l.a->position(), l.a->orientation(), l.a->localCentroid()}.toWorldSpace() * l.p);
            D2 q = D2(Position{l.b->position(), l.b->orientation(), l.b->localCentroid()}.toWorldSpace() * l.q);
            gapMax = std::max(gapMax, norm(p - q));
        }
        worst = std::max(worst, energy(world, 0) - start);
    }
    PBT_CHECK(worst <= 1e-3 * mass * g, "the energy of a chain grew by ", worst, " for a mass of ", mass);
    PBT_CHECK(gapMax <= 0.08, "a hinge of a chain opened by ", gapMax);
    s.nontrivial(n > 1);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C31",
         "pile: up to 12 convex bodies thrown into a closed container for 400 steps; pyramid: rows of boxes of any size, gap and "
         "friction for 300 steps; pendulum: up to 5 balls on strings or rods, some pushed; bridge: chains of up to 8 hinged links that "
         "hang from one or both ends. Non-trivial: more than 3 bodies in a pile, 2 rows, 1 ball or 1 link.",
         {"steps of 1/60 s, default settings", "default penetration"},
         {{"pile", pile, 400, 12000, 20}, {"pyramid", pyramid, 200, 8000, 20}, {"pendulum", pendulum, 2000, 60000, 10}, {"bridge", bridge, 2000, 60000, 10}}}
    );
}
