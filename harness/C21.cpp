// C21: free motion and force fields
// SOURCES: math physics
// FLAGS: san cov -DSIMU_VERIF_SYSTEM_ALLOCATOR
#include "world_common.hpp"

namespace
{

struct Calls
{
    std::map<const Collider*, int> times{};
    float                          dt   = -1;
    bool                           same = true;
};

// records its calls, pushes with a force that depends on the collider only
struct Recorder : ForceField
{
    Recorder(Domain d, Calls& c) : ForceField{d}, calls{c} {}
    void apply(Collider& c, float dt) const override
    {
        ++calls.times[&c];
        calls.same = calls.same && (calls.dt == -1 || calls.dt == dt);
        calls.dt   = dt;
    }
    Calls& calls;
};

struct Field
{
    ForceField* ptr;
    int         kind; // 0 gravity, 1 linear, 2 recorder
    D2          value{};
    bool        region = false;
    D2          lo{}, hi{};
    Calls*      calls = nullptr;
};

struct Part
{
    Collider*         ptr;
    std::vector<Vec2> verts;
    double            density;
};

struct Thing
{
    Body*             ptr;
    double            dominance;
    std::vector<Part> parts{};
    // relative error of the inertia, computed from the origin of the body in single precision
    double inertiaError() const
    {
        double  at = 0;
        RefMass m  = total();
        for (const Part& p : parts)
        {
            RefMass q = refMass(p.verts, p.density);
            at += q.m * dot(q.c, q.c) + q.I;
        }
        return 1e-5 + 3e-6 * at / m.I;
    }
    RefMass total() const
    {
        std::vector<RefMass> m;
        for (const Part& p : parts)
            m.push_back(refMass(p.verts, p.density));
        return m.empty() ? RefMass{} : combine(m);
    }
};

enum Cover
{
    outside,
    inside,
    unsure
};

struct Machine
{
    Source&                           s;
    std::list<Calls>                  calls{};
    World                             world{};
    std::list<Thing>                  things{};
    std::vector<Field>                fields{};
    bool                              partial = false, offCenter = false, structural = false, changed = false, spins = false;
    int                               steps = 0;

    explicit Machine(Source& src) : s{src} {}

    void addPart(Thing& t)
    {
        Material m{};
        m.density = (float)s.pick({1.0, 0.25, 3.0, 20.0});
        Part p{nullptr, localPolygon(s, 3), m.density};
        p.ptr = t.ptr->addCollider(descriptor(p.verts, m));
        s.note("  collider ", str(p.verts), " density ", m.density);
        t.parts.push_back(p);
    }

    void makeBody()
    {
        if (things.size() >= 4)
            return;
        BodyDescriptor d{};
        d.position    = Vec2{(float)(120 * things.size()), 0} + vec(s, 10);
        d.orientation = s.boolean() ? 0 : s.f(-3, 3);
        d.dominance   = s.pick({1.f, 1.f, 1.f, 0.f, 0.5f, 3.f});
        things.push_back(Thing{world.makeBody(d), d.dominance});
        Thing& t = things.back();
        s.note("body ", things.size() - 1, " at ", d.position, " orientation ", d.orientation, " dominance ", d.dominance);
        for (long i = 0, n = s.weighted({1, 6, 4, 2}); i < n; ++i)
            addPart(t);
        if (s.boolean())
            t.ptr->setVelocity(vec(s, 10));
        if (s.boolean())
            t.ptr->setAngularVelocity(s.f(-4, 4));
    }

    void makeField()
    {
        if (fields.size() >= 5)
            return;
        Field               f{};
        ForceField::Domain  dom = ForceField::global();
        f.kind                  = (int)s.weighted({3, 5, 2});
        f.region                = f.kind != 0 && s.boolean();
        if (f.region)
        {
            // around a body or anywhere
            auto it = things.begin();
            if (!things.empty())
                std::advance(it, s.index(things.size()));
            Vec2 c = things.empty() || s.chance(1, 5) ? vec(s, 100) : it->ptr->position() + vec(s, 4);
            Vec2 h{s.f(0, 6), s.f(0, 6)};
            if (s.chance(1, 5))
                h = Vec2{200, s.f(0, 20)};
            f.lo = D2(c - h);
            f.hi = D2(c + h);
            dom  = ForceField::region(c - h, c + h);
        }
        f.value = D2(vec(s, 10));
        switch (f.kind)
        {
            case 0:
                if (s.boolean())
                    f.ptr = world.makeForceField<Gravity>(toVec(f.value));
                else
                {
                    f.value = {0, -9.81};
                    f.ptr   = world.makeForceField<Gravity>();
                }
                break;
            case 1: f.ptr = world.makeForceField<LinearField>(toVec(f.value), dom); break;
            default:
                calls.emplace_back();
                f.calls = &calls.back();
                f.ptr   = world.makeForceField<Recorder>(dom, calls.back());
        }
        s.note("field kind ", f.kind, " ", f.value, f.region ? " in " : " everywhere", f.lo, f.hi);
        fields.push_back(f);
    }

    D2 place(const Thing& t, const RefMass& m, D2 local) const
    {
        return D2(t.ptr->position()) + m.c + rot(local - m.c, t.ptr->orientation());
    }

    Cover cover(const Field& f, const Thing& t, const RefMass& m, const Part& p) const
    {
        if (!f.region)
            return inside;
        D2 lo{1e30, 1e30}, hi{-1e30, -1e30};
        for (Vec2 v : p.verts)
        {
            D2 w = place(t, m, D2(v));
            lo   = {std::min(lo.x, w.x), std::min(lo.y, w.y)};
            hi   = {std::max(hi.x, w.x), std::max(hi.y, w.y)};
        }
        double gap = std::max({f.lo.x - hi.x, lo.x - f.hi.x, f.lo.y - hi.y, lo.y - f.hi.y});
        return gap > 1e-3 ? outside : gap < -1e-3 ? inside : unsure;
    }

    void step()
    {
        float dt = s.pick({0.02f, 0.1f, 0.f, 0.005f, 0.25f});
        if (s.chance(1, 3))
            dt = s.f(0, 0.25f);
        s.note("step ", dt);

        struct Want
        {
            D2     v, p;
            double w, theta;
            double scaleV, scaleW;
            bool   known = true;
        };
        std::vector<Want> wants;
        for (Calls& c : calls)
            c = Calls{};
        for (Thing& t : things)
        {
            RefMass m = t.total();
            Want    w{D2(t.ptr->velocity()), D2(t.ptr->position()), t.ptr->angularVelocity(), t.ptr->orientation(), 0, 0};
            w.scaleV = norm(w.v);
            w.scaleW = std::abs(w.w);
            if (t.dominance != 0)
                for (const Field& f : fields)
                {
                    int in = 0;
                    for (const Part& p : t.parts)
                    {
                        RefMass pm = refMass(p.verts, p.density);
                        Cover   c  = cover(f, t, m, p);
                        w.known    = w.known && (c != unsure || f.kind == 2);
                        if (c != inside || f.kind == 2)
                            continue;
                        ++in;
                        D2 force = f.kind == 0 ? f.value * pm.m : f.value * (pm.m / m.m);
                        D2 r     = rot(pm.c - m.c, t.ptr->orientation());
                        w.v += force * (dt / m.m);
                        w.w += cross(r, force) * dt / m.I;
                        w.scaleV += norm(force) * dt / m.m;
                        w.scaleW += (norm(r) * (1 + 3e4 * t.inertiaError()) + 0.1 * norm(pm.c)) * norm(force) * dt / m.I;
                    }
                    if (in > 0 && in < (int)t.parts.size())
                        partial = true;
                }
            else
                structural = true;
            w.p += w.v * dt;
            w.theta += w.w * dt;
            spins = spins || std::abs(w.w) > 0.1;
            wants.push_back(w);
        }
        // what recorders must see
        std::vector<std::map<const Collider*, Cover>> seen;
        for (const Field& f : fields)
        {
            seen.emplace_back();
            if (f.kind == 2)
                for (Thing& t : things)
                {
                    RefMass m = t.total();
                    for (const Part& p : t.parts)
                        if (t.dominance != 0)
                            seen.back()[p.ptr] = cover(f, t, m, p);
                }
        }

        world.step(dt);
        ++steps;
        // they would push each other
        for (ContactConstraint& c : world.contacts())
        {
            (void)c;
            throw pbt::Discard{};
        }

        for (std::size_t i = 0; i < fields.size(); ++i)
            if (fields[i].kind == 2)
            {
                Calls& c = *fields[i].calls;
                if (dt == 0)
                {
                    PBT_CHECK(c.times.empty(), "a force was applied in a step of no time");
                    continue;
                }
                for (auto [collider, cov] : seen[i])
                    if (cov != unsure)
                        PBT_CHECK(c.times[collider] == (cov == inside ? 1 : 0), "the field ", i, " was applied ", c.times[collider], " times to a collider ",
                                  cov == inside ? "inside" : "outside");
                for (auto [collider, n] : c.times)
                    PBT_CHECK(n == 0 || seen[i].count(collider) == 1, "the field ", i, " was applied to a collider of a structural body");
                PBT_CHECK(c.same && (c.dt == -1 || c.dt == dt), "a field was applied for ", c.dt, " instead of ", dt);
            }
        auto w = wants.begin();
        int  i = 0;
        for (Thing& t : things)
        {
            const Want& k = *w++;
            ++i;
            if (!k.known)
                continue;
            D2     v = D2(t.ptr->velocity()), p = D2(t.ptr->position());
            double tv = 2e-5 * k.scaleV + 1e-6, tw = 3e-5 * k.scaleW + 1e-6;
            PBT_CHECK(norm(v - k.v) <= tv, "body ", i - 1, " has velocity ", v, " instead of ", k.v);
            PBT_CHECK(close(t.ptr->angularVelocity(), k.w, tw), "body ", i - 1, " turns at ", t.ptr->angularVelocity(), " instead of ", k.w);
            PBT_CHECK(norm(p - k.p) <= tv * dt + 4e-7 * norm(k.p) + 1e-6, "body ", i - 1, " is at ", p, " instead of ", k.p);
            double turn = std::remainder(t.ptr->orientation() - k.theta, 2 * M_PI);
            PBT_CHECK(std::abs(turn) <= tw * dt + 3e-6, "body ", i - 1, " has orientation ", t.ptr->orientation(), " instead of ", k.theta);
        }
    }

    void run()
    {
        makeBody();
        for (long i = 0, n = s.integer(2, 24); i < n; ++i)
        {
            std::size_t op = s.weighted({10, 3, 4, 2, 3, 1, 1, 1});
            auto        it = things.begin();
            std::advance(it, s.index(things.size()));
            Thing& t = *it;
            switch (op)
            {
                case 0: step(); break;
                case 1: makeBody(); break;
                case 2: makeField(); break;
                case 3:
                    if (!fields.empty())
                    {
                        std::size_t k = s.index(fields.size());
                        s.note("kill field ", k);
                        fields[k].ptr->kill();
                        fields.erase(fields.begin() + (long)k);
                    }
                    break;
                case 4:
                    if (!t.parts.empty())
                    {
                        RefMass m   = t.total();
                        D2      v   = D2(t.ptr->velocity());
                        double  w   = t.ptr->angularVelocity();
                        Vec2    f   = vec(s, 20), at = s.boolean() ? Vec2{} : vec(s, 3);
                        double  dt  = 1;
                        if (s.boolean())
                        {
                            dt = s.real(0, 0.5);
                            t.ptr->applyForce(f, (float)dt, at);
                        }
                        else
                            t.ptr->applyImpulse(f, at);
                        D2     dv = D2(f) * (dt / m.m);
                        double dw = cross(D2(at), D2(f)) * dt / m.I;
                        offCenter = offCenter || dw != 0;
                        PBT_CHECK(norm(D2(t.ptr->velocity()) - (v + dv)) <= 1e-4 * (norm(dv) + norm(v)) + 1e-6, "an impulse changes the velocity from ", v, " to ",
                                  t.ptr->velocity(), " instead of ", v + dv);
                        PBT_CHECK(close(t.ptr->angularVelocity(), w + dw, 1e-5 * std::abs(w) + (2e-5 + t.inertiaError()) * norm(D2(at)) * norm(D2(f)) * dt / m.I + 1e-6),
                                  "an impulse changes the angular velocity from ", w, " to ", t.ptr->angularVelocity(), " instead of ", w + dw);
                        // not too fast
                        if (norm(D2(t.ptr->velocity())) > 20)
                            t.ptr->setVelocity(Vec2{1, 1});
                        if (std::abs(t.ptr->angularVelocity()) > 10)
                            t.ptr->setAngularVelocity(1);
                    }
                    break;
                case 5:
                    t.ptr->setVelocity(vec(s, 10));
                    t.ptr->setAngularVelocity(s.f(-4, 4));
                    break;
                case 6:
                    if (t.parts.size() < 4)
                    {
                        addPart(t);
                        changed = true;
                    }
                    break;
                default:
                    if (t.parts.size() > 1)
                    {
                        std::size_t k = s.index(t.parts.size());
                        t.ptr->removeCollider(t.parts[k].ptr);
                        t.parts.erase(t.parts.begin() + (long)k);
                        changed = true;
                    }
            }
            for (Thing& b : things)
                if (norm(D2(b.ptr->velocity())) > 25)
                    b.ptr->setVelocity(Vec2{});
        }
        s.labelIf(partial, "part of a body in a region");
        s.labelIf(offCenter, "off-center impulse");
        s.labelIf(structural, "structural body");
        s.labelIf(changed, "colliders changed");
        s.nontrivial(steps >= 3 && !fields.empty() && spins);
    }
};

void motion(Source& s) { Machine{s}.run(); }

// bodies keep their shape over long runs
void rigidity(Source& s)
{
    World    world{};
    BodyDescriptor d{};
    d.position    = vec(s, 20);
    d.orientation = s.f(-3, 3);
    Body* b       = world.makeBody(d);
    std::vector<Part> parts;
    for (long i = 0, n = s.integer(1, 3); i < n; ++i)
    {
        Part p{nullptr, localPolygon(s, 3), 1};
        p.ptr = b->addCollider(descriptor(p.verts));
        parts.push_back(p);
    }
    b->setAngularVelocity(s.f(-30, 30));
    b->setVelocity(vec(s, 0.1));
    if (s.boolean())
        world.makeForceField<Gravity>(vec(s, 0.01));
    float  dt = s.pick({0.01f, 0.02f, 1.f / 60});
    long   n  = s.integer(1, 3000);
    D2     v0 = D2(b->velocity()), c0 = D2(b->centroid());
    double w0 = b->angularVelocity(), th0 = b->orientation();
    bool   gravity = false;
    for (ForceField& f : world.forceFields())
        gravity = (void(f), true);
    for (long i = 0; i < n; ++i)
        world.step(dt);
    PBT_CHECK(b->angularVelocity() == (float)w0 || std::abs(b->angularVelocity() - w0) <= 1e-6 * (double)n * (gravity ? 1 : 0),
              "the angular velocity of a free body went from ", w0, " to ", b->angularVelocity());
    double turn = std::remainder(b->orientation() - (th0 + w0 * dt * (double)n), 2 * M_PI);
    PBT_CHECK(std::abs(turn) <= 1e-5 + (1e-6 + 1.2e-7 * std::abs(w0 * dt * (double)n)) * (double)n, "after ", n, " steps at ", w0, " the orientation is off by ", turn);
    if (!gravity)
    {
        D2 c = c0 + v0 * (dt * (double)n);
        PBT_CHECK(norm(D2(b->centroid()) - c) <= 3e-6 * (double)n + 1e-5, "after ", n, " steps the centroid is at ", b->centroid(), " instead of ", c);
    }
    for (Part& p : parts)
    {
        std::vector<D2> got;
        for (Vec2 v : *p.ptr)
            got.push_back(D2(v));
        // same as from the pose, in any order of the vertices
        RefMass              m;
        std::vector<RefMass> ms;
        for (Part& q : parts)
            ms.push_back(refMass(q.verts, 1));
        m = combine(ms);
        for (Vec2 v : p.verts)
        {
            D2     at   = D2(b->position()) + m.c + rot(D2(v) - m.c, b->orientation());
            double best = 1e9;
            for (D2 g : got)
                best = std::min(best, norm(g - at));
            PBT_CHECK(best <= 1e-5 * (norm(at) + norm(D2(v)) + 1) * 4, "after ", n, " steps a vertex of a collider is ", best, " away from ", at);
        }
    }
    s.nontrivial(n > 300 && std::abs(w0) > 1);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C21",
         "motion: histories of up to 24 operations on up to 4 bodies of generated colliders and densities that never meet, "
         "with gravity, linear and custom force fields, everywhere or in regions that cover parts of bodies, impulses and "
         "forces at points, changes of colliders and steps of any length. rigidity: a body turns for up to 3000 steps. "
         "Non-trivial: 3 steps with a field and a turning body; 300 steps of a turning body.",
         {"bodies do not touch each other"},
         {{"motion", motion, 30000, 1000000, 10}, {"rigidity", rigidity, 1500, 40000, 10}}}
    );
}
