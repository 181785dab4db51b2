// C32: what makes no sense is refused, and changes nothing
// SOURCES: math physics
// FLAGS: san cov -DSIMU_VERIF_SYSTEM_ALLOCATOR
#include "world_common.hpp"

namespace
{

struct Refused
{
};

// objects that give up while they are made
struct BadBody : Body
{
    BadBody(const BodyDescriptor& d) : Body{d} { throw Refused{}; }
};
struct BadGravity : Gravity
{
    BadGravity() : Gravity{Vec2{0, -50}} { throw Refused{}; }
};
struct BadHinge : HingeConstraint
{
    BadHinge(const Bodies& b, Vec2 p) : HingeConstraint{b, p} { throw Refused{}; }
};

// a distance whose limits are changed while it acts
struct Winch : DistanceConstraint
{
    Winch(const Bodies& b, std::array<Vec2, 2> p, float lo, float hi, bool disable) : DistanceConstraint{b, p, std::optional<float>{lo}, std::optional<float>{hi}, disable} {}
    void shortest(float l) { solver.setLowerLimit(Value{l * l}); }
    void longest(float l) { solver.setUpperLimit(Value{l * l}); }
};

// what there is to know about a world
std::vector<double> snapshot(World& w)
{
    std::vector<double> r;
    auto                add = [&](auto... x) { (r.push_back((double)x), ...); };
    std::map<const Body*, int> index;
    for (Body& b : w.bodies())
    {
        int i = (int)index.size();
        index[&b] = i;
    }
    add(index.size());
    for (Body& b : w.bodies())
    {
        add(b.position()[0], b.position()[1], b.orientation(), b.velocity()[0], b.velocity()[1], b.angularVelocity(), b.dominance());
        bool massive = b.colliders().begin() != b.colliders().end();
        add(massive);
        if (massive)
            add(b.mass(), b.inertia(), b.centroid()[0], b.centroid()[1]);
        for (const Collider& c : b.colliders())
            for (Vec2 v : c)
                add(v[0], v[1]);
        int n = 0;
        for (Constraint* c : b.constraints())
        {
            const Constraint& k = *c;
            ++n;
            add(index.at(k.bodies()[0]), index.at(k.bodies()[1]));
        }
        add(n);
    }
    int constraints = 0, fields = 0, contacts = 0;
    for (Constraint& c : w.constraints())
    {
        const Constraint& k = c;
        ++constraints;
        add(index.at(k.bodies()[0]), index.at(k.bodies()[1]), k.disablesContacts());
    }
    for (ForceField& f : w.forceFields())
        fields += f.domain().type == ForceField::DomainType::global ? 1 : 1000;
    for (ContactConstraint& c : w.contacts())
        contacts += !c.isDead();
    add(constraints, fields, contacts);
    int found = 0;
    w.forEachIn(BoundingBox{Vec2{-1e6f, -1e6f}, Vec2{1e6f, 1e6f}}, [&](Body*) { ++found; });
    add(found);
    return r;
}

struct Machine
{
    Source&            s;
    World              world{}, twin{}; // the twin never hears of what is refused
    std::vector<Body*> bodies{}, twins{};
    long               refusals = 0;
    bool               crowded, stepped = false, constrained = false;
    struct Limits
    {
        Winch *winch, *other = nullptr;
        float  lo, hi;
    };
    std::vector<Limits> winches{};

    explicit Machine(Source& src) : s{src}, crowded{s.chance(1, 3)} {}

    // in both worlds, but the order of contacts is the one of their addresses
    void both(const auto& f)
    {
        f(world, bodies);
        if (!crowded)
            f(twin, twins);
    }

    void makeABody()
    {
        BodyDescriptor d{};
        d.position    = crowded ? vec(s, 3) : vec(s, 3) + Vec2{40.f * (float)bodies.size(), 0};
        d.orientation = s.boolean() ? 0 : s.f(-3, 3);
        d.dominance   = s.pick({1.f, 1.f, 0.f, 0.5f});
        auto     v    = convexAround(s, 0.5, 2);
        Material m{};
        m.density = s.f(0.1f, 5);
        both([&](World& w, auto& list) {
            Body* b = w.makeBody(d);
            b->addCollider(descriptor(v, m));
            list.push_back(b);
        });
    }

    template <class F>
    void refuse(const char* what, const F& f, bool ours = false)
    {
        s.note("try ", what);
        auto before  = snapshot(world);
        bool refused = false;
        try
        {
            f();
        }
        catch (const simu::Exception& e)
        {
            refused = !ours;
            PBT_CHECK(std::string{e.what()}.find('\n') != std::string::npos, "the exception says nothing");
        }
        catch (const Refused&)
        {
            refused = ours;
        }
        PBT_CHECK(refused, what, " is not refused");
        auto after = snapshot(world);
        PBT_CHECK(before.size() == after.size() && std::equal(before.begin(), before.end(), after.begin()), what, " is refused, but changes the world");
        ++refusals;
    }

    // any constraint that the library has
    static void make(World& w, int kind, const Bodies& bs, std::array<Vec2, 2> p, bool disable)
    {
        switch (kind)
        {
            case 0: w.makeConstraint<HingeConstraint>(bs, (p[0] + p[1]) / 2, disable); break;
            case 1: w.makeConstraint<WeldConstraint>(bs, disable); break;
            case 2: w.makeConstraint<RotationConstraint>(bs, disable); break;
            case 3: w.makeConstraint<DistanceConstraint>(bs, p, disable); break;
            default: w.makeConstraint<DistanceConstraint>(bs, p, std::optional<float>{0.5f * norm(p[1] - p[0])}, std::optional<float>{2 * norm(p[1] - p[0])}, disable);
        }
    }

    void constrain()
    {
        std::size_t a = s.index(bodies.size()), b = s.index(bodies.size());
        int         kind    = (int)s.index(5);
        bool        disable = s.boolean();
        std::array<Vec2, 2>   p{bodies[a]->centroid() + vec(s, 0.5), bodies[b]->centroid() + vec(s, 0.5)};
        std::optional<Vec2>   given{};
        if (s.chance(1, 3))
            given = Vec2{s.pick({0.f, 1.f, 0.5f}), s.pick({0.f, 1.f, 0.25f})};
        double d0 = given ? (*given)[0] : bodies[a]->dominance(), d1 = given ? (*given)[1] : bodies[b]->dominance();
        auto   with = [&](const std::vector<Body*>& list) { return Bodies{{list[a], list[b]}, given}; };
        s.note("constraint ", kind, " of ", a, " and ", b, ", dominances ", d0, ", ", d1);
        if (norm(D2(p[0]) - D2(p[1])) < 0.1)
            return;
        if ((d0 == 0 && d1 == 0) || (a == b && d0 == 0))
            return refuse("a constraint on structural bodies", [&] { make(world, kind, with(bodies), p, disable); });
        if (a == b)
            return;
        auto usual = [&](float lo, float hi, bool hasLo, bool hasHi) {
            return [=, this] {
                world.makeConstraint<DistanceConstraint>(with(bodies), p, hasLo ? std::optional<float>{lo} : std::nullopt, hasHi ? std::optional<float>{hi} : std::nullopt, disable);
            };
        };
        switch (s.index(6))
        {
            case 0: return refuse("a distance without limits", usual(0, 0, false, false));
            case 1: return refuse("a least distance that is not positive", usual(s.pick({0.f, -1.f, -100.f}), 3, true, s.boolean()));
            case 2: return refuse("a greatest distance that is not positive", usual(1, s.pick({0.f, -1.f, -3.f}), s.boolean(), true));
            case 3:
            {
                float hi = s.f(0.1f, 20);
                return refuse("limits that exclude each other", usual(hi * s.pick({1.01f, 2.f, 10.f}), hi, true, true));
            }
            case 4: return refuse("a constraint that throws", [&] { world.makeConstraint<BadHinge>(with(bodies), p[0]); }, true);
            default: break;
        }
        constrained = true;
        if (s.chance(1, 4))
        {
            float lo = 0.5f * norm(p[1] - p[0]), hi = 2 * norm(p[1] - p[0]);
            winches.push_back({world.makeConstraint<Winch>(with(bodies), p, lo, hi, disable), nullptr, lo, hi});
            if (!crowded)
                winches.back().other = twin.makeConstraint<Winch>(with(twins), p, lo, hi, disable);
            return;
        }
        // the same when both limits are equal
        both([&](World& w, auto& list) { make(w, kind, with(list), p, disable); });
    }

    void collide()
    {
        std::size_t i = s.index(bodies.size());
        Body*       b = bodies[i];
        Vec2        o = vec(s, 2);
        Material    m{};
        switch (s.index(4))
        {
            case 0:
                m.density = s.pick({0.f, -1.f, -1e-6f, -1e6f});
                return refuse("a collider without density", [&] { b->addCollider(descriptor(boxVerts(1, 1, o), m)); });
            case 1:
            {
                std::vector<Vec2> line;
                for (int k = 0, n = (int)s.integer(3, 6); k < n; ++k)
                    line.push_back(Vec2{(float)s.integer(-8, 8), 2});
                return refuse("a collider without surface", [&] { b->addCollider(descriptor(line, m)); });
            }
            case 2:
            {
                std::vector<Vec2> few;
                for (int k = 0, n = (int)s.integer(0, 2); k < n; ++k)
                    few.push_back(vec(s, 2));
                return refuse("a polygon of less than three vertices", [&] { b->addCollider(descriptor(few, m)); });
            }
            default:
                m.density = s.f(0.1f, 3);
                both([&](World&, auto& list) { list[i]->addCollider(descriptor(boxVerts(1, 2, o), m)); });
        }
    }

    void other()
    {
        Body* a = bodies[s.index(bodies.size())];
        Body* b = bodies[s.index(bodies.size())];
        switch (s.index(5))
        {
            case 0: return refuse("a body that throws", [&] { world.makeBody<BadBody>(BodyDescriptor{}); }, true);
            case 1: return refuse("a force that throws", [&] { world.makeForceField<BadGravity>(); }, true);
            case 2: return refuse("one body for two", [&] { Bodies bs{a}; });
            case 3: return refuse("three bodies for two", [&] { Bodies bs{a, b, a}; });
            default:
            {
                Body* c = bodies[s.index(bodies.size())];
                if (c == a || c == b)
                    return;
                Bodies bs{a, b};
                return refuse("another body", [&] { (void)bs.isBodyStructural(c); });
            }
        }
    }

    void limits()
    {
        if (winches.empty())
            return;
        Limits& l    = winches[s.index(winches.size())];
        bool    both = s.boolean(), low = s.boolean();
        if (both)
        {
            float& bound = low ? l.lo : l.hi;
            bound        = low ? l.hi * s.pick({1.f, 0.9f, 0.3f}) : l.lo * s.pick({1.f, 1.2f, 3.f});
            s.note(low ? "shortest " : "longest ", bound);
            for (Winch* w : {l.winch, l.other})
                if (w != nullptr)
                    low ? w->shortest(bound) : w->longest(bound);
        }
        else if (low)
            refuse("a lower limit above the upper one", [&] { l.winch->shortest(l.hi * s.pick({1.1f, 1.5f, 4.f})); });
        else
            refuse("an upper limit below the lower one", [&] { l.winch->longest(l.lo * s.pick({0.9f, 0.5f, 0.1f})); });
    }

    void step()
    {
        float dt = s.pick({1.f / 60, 1.f / 30, 0.f});
        s.note("step ", dt);
        both([&](World& w, auto&) { w.step(dt); });
        stepped = stepped || (refusals > 0 && dt > 0);
        for (Body* b : bodies)
            PBT_CHECK(finite(b->position()) && finite(b->velocity()), "a body is at ", b->position());
        if (!crowded)
        {
            auto x = snapshot(world), y = snapshot(twin);
            PBT_CHECK(x.size() == y.size(), "a world in which attempts were refused has other objects");
            for (std::size_t i = 0; i < x.size(); ++i)
                PBT_CHECK(close(x[i], y[i], 1e-5 * (1 + std::abs(y[i]))), "a world in which attempts were refused moves otherwise, value ", i, " is ", x[i], " instead of ", y[i]);
        }
    }

    void run()
    {
        for (long n = s.integer(2, 5); n > 0; --n)
            makeABody();
        if (s.boolean())
            both([&](World& w, auto&) { w.makeForceField<Gravity>(Vec2{0, -10}); });
        for (long n = s.size(1, 25); n > 0; --n)
            switch (s.weighted({4, 3, 2, 3, 1, 1, 2}))
            {
                case 0: constrain(); break;
                case 1: collide(); break;
                case 2: other(); break;
                case 3: step(); break;
                case 4: makeABody(); break;
                case 6: limits(); break;
                default:
                {
                    std::size_t i = s.index(bodies.size());
                    Vec2        v = vec(s, 2);
                    float       w = s.f(-2, 2);
                    both([&](World&, auto& list) { list[i]->setVelocity(v), list[i]->setAngularVelocity(w); });
                }
            }
        s.labelIf(crowded, "contacts");
        s.labelIf(constrained, "constraints");
        s.labelIf(!winches.empty(), "limits that change");
        s.nontrivial(stepped && refusals > 2);
    }
};

void history(Source& s) { Machine{s}.run(); }

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C32",
         "Histories of up to 25 operations on a world of 2 to 12 bodies, some moving, in contact or constrained: bodies, colliders "
         "and constraints that make sense, and attempts that do not: constraints on structural bodies only, distances without "
         "limits, with limits that are not positive or exclude each other, colliders without surface or density, polygons of "
         "two vertices, one or three bodies, limits changed to exclude each other, objects that throw while they are made. Non-trivial: more than two refusals and a "
         "step after one.",
         {},
         {{"history", history, 20000, 400000, 10}}}
    );
}
