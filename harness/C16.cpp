// C16: mass properties and world space geometry of bodies
// SOURCES: math physics
// FLAGS: san cov -DSIMU_VERIF_SYSTEM_ALLOCATOR
#include "world_common.hpp"

namespace
{

struct Machine
{
    struct Part
    {
        RefCollider ref;
        RefMass     mass;
        Collider*   collider;
        double      radius, rel; // relative error of areas in single precision
    };

    Source&           s;
    World             world{};
    Body*             body;
    std::vector<Part> parts{};
    double            reach = 1;
    bool              removed = false, rotated = false, impulse = false, refused = false;
    long              ops = 0;

    explicit Machine(Source& src) : s{src}
    {
        BodyDescriptor d{};
        d.position    = s.chance(1, 3) ? Vec2{} : vec(s, 20);
        d.orientation = s.boolean() ? 0.f : (float)s.real(-7, 7);
        d.dominance   = s.chance(1, 4) ? 0.f : 1.f;
        body          = world.makeBody(d);
        PBT_CHECK(all(body->position() == d.position) && body->orientation() == d.orientation && body->dominance() == d.dominance,
                  "a new body differs from its descriptor");
        PBT_CHECK(all(body->velocity() == Vec2{}) && body->angularVelocity() == 0.f, "a new body moves");
        PBT_CHECK(body->isStructural() == (d.dominance == 0.f), "isStructural");
        reach = 10 + norm(D2(d.position));
    }

    RefMass expected() const
    {
        std::vector<RefMass> m;
        for (const Part& p : parts)
            m.push_back(p.mass);
        return combine(m);
    }

    D2 worldCentroid(const RefMass& m) const { return D2(body->position()) + m.c; }

    void check(const char* when)
    {
        std::size_t n = 0;
        for (const Collider& c : body->colliders())
        {
            PBT_CHECK(c.body() == body, "a collider belongs to another body");
            ++n;
        }
        PBT_CHECK(n == parts.size(), n, " colliders instead of ", parts.size());
        if (parts.empty())
            return;
        RefMass m = expected();
        double em = 0, ec = 0, ei = 0;
        for (const Part& p : parts)
        {
            em += p.rel * p.mass.m;
            ec += p.rel * p.mass.m * p.radius / m.m + 1e-6 * p.radius;
            ei += p.rel * p.mass.m * p.radius * p.radius * 2;
        }
        PBT_CHECK(close(body->mass(), m.m, em), when, ": mass ", body->mass(), " instead of ", m.m);
        PBT_CHECK(close(body->inertia(), m.I, ei), when, ": inertia ", body->inertia(), " instead of ", m.I);
        PBT_CHECK(close(body->invMass() * (double)body->mass(), 1, 1e-6) && close(body->invInertia() * (double)body->inertia(), 1, 1e-6), "inverse mass");
        PBT_CHECK(norm(D2(body->localCentroid()) - m.c) <= ec, when, ": local centroid ", body->localCentroid(), " instead of ", m.c);
        double tol = 1e-6 * (reach + norm(D2(body->position())) + 12) + 2 * ec;
        PBT_CHECK(norm(D2(body->centroid()) - worldCentroid(m)) <= tol, when, ": centroid ", body->centroid(), " instead of ", worldCentroid(m));

        for (const Part& p : parts)
        {
            std::vector<Vec2> got(p.collider->begin(), p.collider->end());
            std::vector<D2>   want;
            for (Vec2 v : p.ref.verts)
                want.push_back(D2(body->position()) + m.c + rot(D2(v) - m.c, body->orientation()));
            if (polyArea(asD(p.ref.verts)) < 0)
                std::reverse(want.begin(), want.end());
            PBT_CHECK(got.size() == want.size(), "vertices of a collider");
            // same cycle
            std::size_t shift = 0;
            double      best  = 1e300;
            for (std::size_t k = 0; k < want.size(); ++k)
            {
                double worst = 0;
                for (std::size_t i = 0; i < want.size(); ++i)
                    worst = std::max(worst, norm(D2(got[i]) - want[(i + k) % want.size()]));
                if (worst < best)
                {
                    best  = worst;
                    shift = k;
                }
            }
            PBT_CHECK(best <= 3 * tol, when, ": world space vertices ", str(got), " are off by ", best);
            float lx = got[0][0], hx = lx, ly = got[0][1], hy = ly;
            for (Vec2 v : got)
            {
                lx = std::min(lx, v[0]);
                hx = std::max(hx, v[0]);
                ly = std::min(ly, v[1]);
                hy = std::max(hy, v[1]);
            }
            BoundingBox b = p.collider->boundingBox();
            PBT_CHECK(all(b.min() == Vec2{lx, ly}) && all(b.max() == Vec2{hx, hy}), when, ": bounding box of a collider");
            // spaces are inverse of each other
            Vec2 q = vecOf(p.ref.verts[0]);
            Vec2 back = body->toLocalSpace() * (body->toWorldSpace() * q);
            PBT_CHECK(norm(D2(back) - D2(q)) <= 4 * tol, when, ": to world space and back moves ", q, " to ", back);
            PBT_CHECK(norm(D2(body->toWorldSpace() * q) - (D2(body->position()) + m.c + rot(D2(q) - m.c, body->orientation()))) <= 3 * tol, "toWorldSpace");
            RefMass w = p.mass;
            MassProperties mp = p.collider->properties();
            PBT_CHECK(close(mp.m, w.m, p.rel * w.m) && close(mp.I, w.I, 2 * p.rel * w.m * p.radius * p.radius) && norm(D2(mp.centroid) - w.c) <= (p.rel + 1e-6) * p.radius, "mass of a collider");
        }
    }
    static Vec2 vecOf(Vec2 v) { return v; }

    // the velocity of the matter of the body
    D2 velocityAt(D2 p, D2 centroid) const
    {
        return D2(body->velocity()) + perp(p - centroid) * (double)body->angularVelocity();
    }

    void add()
    {
        Part p;
        p.ref.verts   = localPolygon(s);
        p.ref.density = s.boolean() ? 1 : s.real(0.1, 8);
        Material m{};
        m.density = (float)p.ref.density;
        p.mass    = refMass(p.ref.verts, m.density);
        p.radius  = polyRadius(asD(p.ref.verts)) + 1;
        p.rel     = 1e-6 + 5e-7 * p.radius * p.radius * m.density / p.mass.m;
        RefMass before = expected();
        D2      c0     = worldCentroid(before);
        D2      v0 = D2(body->velocity());
        double  w0 = body->angularVelocity();
        p.collider = body->addCollider(descriptor(p.ref.verts, m));
        s.note("add ", str(p.ref.verts), " of density ", m.density);
        parts.push_back(p);
        PBT_CHECK(body->angularVelocity() == (float)w0, "adding a collider changes the angular velocity");
        if (parts.size() > 1)
        {
            D2 c1   = worldCentroid(expected());
            D2 want = v0 + perp(c1 - c0) * w0;
            PBT_CHECK(norm(D2(body->velocity()) - want) <= 3e-5 * (1 + norm(v0) + std::abs(w0) * (reach + norm(c1 - c0))),
                      "after adding a collider the center of mass moves at ", body->velocity(), " instead of ", want, ", the velocity of that point");
        }
        s.labelIf(parts.size() > 1 && w0 != 0, "added while turning");
    }

    void addInvalid()
    {
        std::vector<Vec2> v = localPolygon(s);
        Material          m{};
        D2                vel = D2(body->velocity());
        const char*       what;
        if (s.boolean())
        {
            m.density = s.pick({0.f, -1.f});
            what      = "a null or negative density";
        }
        else
        {
            v    = {Vec2{0, 0}, Vec2{1, 0}, Vec2{2, 0}};
            what = "no area";
        }
        s.note("add a collider with ", what);
        bool threw = false;
        try
        {
            body->addCollider(descriptor(v, m));
        }
        catch (const simu::Exception&)
        {
            threw = true;
        }
        PBT_CHECK(threw, "a collider with ", what, " is accepted");
        PBT_CHECK(D2(body->velocity()).x == vel.x, "a refused collider changes the velocity");
        refused = true;
    }

    void remove()
    {
        if (parts.empty())
            return;
        std::size_t k  = s.index(parts.size());
        D2          c0 = worldCentroid(expected());
        D2          v0 = D2(body->velocity());
        double      w0 = body->angularVelocity();
        s.note("remove collider ", k);
        body->removeCollider(parts[k].collider);
        parts.erase(parts.begin() + (long)k);
        removed = true;
        if (!parts.empty())
        {
            D2 c1   = worldCentroid(expected());
            D2 want = v0 + perp(c1 - c0) * w0;
            PBT_CHECK(norm(D2(body->velocity()) - want) <= 3e-5 * (1 + norm(v0) + std::abs(w0) * (reach + norm(c1 - c0))),
                      "after removing a collider the center of mass moves at ", body->velocity(), " instead of ", want, ", the velocity of that point");
        }
    }

    void move()
    {
        if (parts.empty())
            return;
        body->setVelocity(vec(s, 4));
        body->setAngularVelocity((float)s.real(-4, 4));
        float dt = s.pick({0.f, 0.01f, 0.25f});
        s.note("step ", dt, " at ", body->velocity(), " and ", body->angularVelocity());
        world.step(dt);
        rotated = rotated || (body->angularVelocity() != 0 && dt > 0);
    }

    void push()
    {
        if (parts.empty())
            return;
        Vec2   J = vec(s, 5), at = s.boolean() ? Vec2{} : vec(s, 5);
        D2     v0 = body->velocity();
        double w0 = body->angularVelocity();
        RefMass m = expected();
        double  dt = 1;
        if (s.boolean())
            body->applyImpulse(J, at);
        else
        {
            dt = s.real(0, 2);
            body->applyForce(J, (float)dt, at);
        }
        s.note("push ", J, " for ", dt, " at ", at);
        (void)m;
        D2     v = v0 + D2(J) * dt / body->mass();
        double w = w0 + cross(D2(at), D2(J)) * dt / body->inertia();
        PBT_CHECK(norm(D2(body->velocity()) - v) <= 1e-6 * (norm(v0) + norm(D2(J)) * dt / body->mass() + 1e-3), "velocity ", body->velocity(), " after an impulse, instead of ", v);
        PBT_CHECK(close(body->angularVelocity(), w, 1e-6 * (std::abs(w0) + norm(D2(J)) * dt * norm(D2(at)) / body->inertia() + 1e-3)),
                  "angular velocity ", body->angularVelocity(), " after an impulse, instead of ", w);
        impulse = true;
    }

    void run()
    {
        long n = s.size(1, 25);
        for (long i = 0; i < n; ++i)
        {
            switch (s.weighted({5, 3, 3, 2, 1}))
            {
                case 0:
                    if (parts.size() < 6)
                        add();
                    break;
                case 1: move(); break;
                case 2: remove(); break;
                case 3: push(); break;
                default: addInvalid();
            }
            ++ops;
            check("after an operation");
            // bring it back
            if (norm(D2(body->position())) > 200)
                break;
        }
        s.labelIf(removed, "removed");
        s.labelIf(rotated, "rotated");
        s.labelIf(impulse, "impulse");
        s.labelIf(refused, "refused");
        s.nontrivial(ops > 4 && parts.size() > 1);
    }
};

void history(Source& s) { Machine{s}.run(); }

// the values that bodies are made of
void values(Source& s)
{
    double m = s.real(0.01, 50), I = s.real(0.01, 500), density = s.real(0.05, 20);
    Mass   mass{(float)m, (float)I};
    PBT_CHECK(close(mass.mass(), m, 1e-6 * m) && close(mass.inertia(), I, 1e-6 * I), "a mass of ", m, ", ", I, " is ", mass.mass(), ", ", mass.inertia());
    PBT_CHECK(close(mass.invMass(), 1 / m, 1e-6 / m) && close(mass.invInertia(), 1 / I, 1e-6 / I), "the inverses of ", m, ", ", I, " are ",
              mass.invMass(), ", ", mass.invInertia());

    auto                vs = convexAround(s, 0.3, 3);
    Polygon             poly{vs.begin(), vs.end()};
    GeometricProperties g{poly};
    Mass                whole{g, (float)density};
    PBT_CHECK(close(whole.mass(), g.area * density, 1e-5 * g.area * density) && close(whole.inertia(), g.momentOfArea * density, 1e-5 * g.momentOfArea * density),
              "the mass of a shape of area ", g.area, ", moment ", g.momentOfArea, ", density ", density, " is ", whole.mass(), ", ", whole.inertia());

    Vec2     v = vec(s, 9), dv = vec(s, 9);
    float    w = s.f(-9, 9), dw = s.f(-9, 9);
    Velocity u{v, w};
    PBT_CHECK(u.linear()[0] == v[0] && u.linear()[1] == v[1] && u.angular() == w, "a velocity is another");
    u.increment(dv, dw);
    PBT_CHECK(norm(D2(u.linear()) - D2(v) - D2(dv)) <= 1e-5 && close(u.angular(), (double)w + dw, 1e-5), "a velocity is not incremented");
    u.set(dv, dw);
    PBT_CHECK(u.linear()[0] == dv[0] && u.linear()[1] == dv[1] && u.angular() == dw, "a velocity is not set");

    Vec2     p = vec(s, 9), c = vec(s, 3);
    float    theta = s.f(-3, 3);
    Position pos{p, theta, c};
    D2       at = D2(p);
    double   th = theta;
    for (long n = s.integer(0, 4); n > 0; --n)
    {
        Vec2  d = vec(s, 5);
        float t = s.f(-3, 3);
        pos.advance(d, t);
        at = at + D2(d);
        th += t;
    }
    if (s.boolean())
        pos.setLocalCentroid(c = vec(s, 3));
    PBT_CHECK(norm(D2(pos.position()) - at) <= 1e-5 * (10 + norm(at)), "the position is ", pos.position(), " instead of ", at);
    PBT_CHECK(std::abs(std::remainder(pos.orientation() - th, 2 * 3.14159265358979)) <= 2e-5, "the orientation is ", pos.orientation(), " instead of ", th);
    PBT_CHECK(norm(D2(pos.localCentroid()) - D2(c)) == 0, "the local centroid is ", pos.localCentroid());
    PBT_CHECK(norm(D2(pos.centroid()) - at - D2(c)) <= 1e-5 * (20 + norm(at)), "the centroid is ", pos.centroid());
    for (int i = 0; i < 3; ++i)
    {
        Vec2 l = vec(s, 9);
        D2   r = D2(l) - D2(c), want = at + D2(c) + D2{std::cos(th) * r.x - std::sin(th) * r.y, std::sin(th) * r.x + std::cos(th) * r.y};
        PBT_CHECK(norm(D2(pos.toWorldSpace() * l) - want) <= 5e-5 * (20 + norm(at)), "point ", l, " is at ", pos.toWorldSpace() * l, " instead of ", want);
        PBT_CHECK(norm(D2(pos.toLocalSpace() * toVec(want)) - D2(l)) <= 5e-5 * (20 + norm(at)), "point ", want, " is ", pos.toLocalSpace() * toVec(want), " in local space instead of ", l);
    }
    s.nontrivial(norm(D2(c)) > 0.1);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C16",
         "Histories of up to 25 operations on a body: add colliders (convex, any offset, density and orientation), refused "
         "colliders, remove colliders, move with steps, impulses and forces; mass properties, transforms and world geometry "
         "are compared after each one with double precision. Non-trivial: more than 4 operations and several colliders. values: masses, velocities and positions as values. Non-trivial: a centroid off the origin.",
         {"convex colliders (concave mass properties: C07)"},
         {{"history", history, 60000, 1500000, 5}, {"values", values, 40000, 800000}}}
    );
}
