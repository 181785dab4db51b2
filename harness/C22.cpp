// C22: conservation of momentum, structural bodies, dissipation
// SOURCES: math physics
// FLAGS: san cov -DSIMU_VERIF_SYSTEM_ALLOCATOR
#include "world_common.hpp"

namespace
{

struct Link
{
    Constraint*         ptr;
    int                 a, b;
    int                 kind; // 0 rotation, 1 hinge, 2 weld, 3 distance, 4 rope
    std::array<Vec2, 2> local{};
};

struct State
{
    D2     v{}, c{};
    double w = 0;
};

struct Machine
{
    Source&            s;
    World              world{};
    std::vector<Body*> bodies{};
    std::vector<double> dom{};
    std::vector<Link>  links{};

    explicit Machine(Source& src) : s{src} {}

    std::vector<State> states()
    {
        std::vector<State> r;
        for (Body* b : bodies)
            r.push_back({D2(b->velocity()), D2(b->centroid()), b->angularVelocity()});
        return r;
    }

    int find(const Body* b) { return (int)(std::find(bodies.begin(), bodies.end(), b) - bodies.begin()); }

    void run()
    {
        bool     smooth = s.boolean(); // no friction nor bounce: contacts only dissipate
        Material m{};
        m.bounciness.value = smooth ? 0 : (float)s.real(0, 1);
        m.friction.value   = smooth ? 0 : (float)s.real(0, 1);
        double spread      = s.pick({2.0, 1.0, 4.0, 40.0});
        long   n           = s.integer(2, 6);
        bool   dominances = s.chance(1, 3), fixed = s.chance(1, 3);
        for (long i = 0; i < n; ++i)
        {
            m.density = s.pick({1.f, 1.f, 0.2f, 8.f});
            double d  = dominances ? s.pick({1.0, 0.5, 3.0}) : 1;
            if (fixed && s.chance(1, 3))
                d = 0;
            std::vector<Vec2> shape = s.boolean() ? boxVerts(s.pick({1.0, 2.0}), 1) : convexAround(s, 0.5, 2);
            Vec2              pos   = vec(s, spread);
            double            th    = s.boolean() ? 0 : s.real(-3, 3);
            bodies.push_back(makeBody(world, shape, pos, th, d, m));
            dom.push_back(d);
            if (d != 0 || s.chance(1, 4))
            {
                bodies.back()->setVelocity(vec(s, 5));
                if (d != 0)
                    bodies.back()->setAngularVelocity(s.f(-3, 3));
            }
            s.note("body ", i, " ", str(shape), " at ", pos, " orientation ", th, " dominance ", d, " density ", m.density, " velocity ", bodies.back()->velocity(), " ",
                   bodies.back()->angularVelocity());
        }
        for (long i = 0, k = s.size(0, 5); i < k; ++i)
        {
            int a = (int)s.index(bodies.size()), b = (int)s.index(bodies.size());
            if (a == b || (dom[a] == 0 && dom[b] == 0))
                continue;
            Link   l{nullptr, a, b, (int)s.integer(0, 4)};
            Bodies bs{bodies[a], bodies[b]};
            Vec2   p = bodies[a]->centroid() + vec(s, 1), q = bodies[b]->centroid() + vec(s, 1);
            bool   off = s.boolean();
            // long levers make systems that cannot be solved in single precision
            if (norm(D2(p) - D2(bodies[b]->centroid())) > 4 && l.kind < 3)
                l.kind = 0;
            switch (l.kind)
            {
                case 0: l.ptr = world.makeConstraint<RotationConstraint>(bs, off); break;
                case 1: l.ptr = world.makeConstraint<HingeConstraint>(bs, p, off); break;
                case 2:
                    p     = (bodies[a]->centroid() + bodies[b]->centroid()) / 2;
                    l.ptr = world.makeConstraint<WeldConstraint>(bs, off);
                    break;
                default:
                {
                    double dist = norm(D2(p) - D2(q));
                    if (dist < 0.2)
                        continue;
                    if (l.kind == 3)
                        l.ptr = world.makeConstraint<DistanceConstraint>(bs, std::array<Vec2, 2>{p, q}, off);
                    else
                        l.ptr = world.makeConstraint<DistanceConstraint>(
                            bs, std::array<Vec2, 2>{p, q}, std::optional<float>{(float)(dist * s.real(0.5, 1))},
                            std::optional<float>{(float)(dist * s.real(1.01, 1.5))}, off
                        );
                }
            }
            l.local = {bodies[a]->toLocalSpace() * p, bodies[b]->toLocalSpace() * (l.kind < 3 ? p : q)};
            s.note("joint kind ", l.kind, " on ", a, " and ", b, " at ", p, " ", q);
            links.push_back(l);
        }

        bool exchanged = false, structural = false, energy = false, angular = false, single = false;
        for (int step = 0, steps = (int)s.integer(1, 8); step < steps; ++step)
        {
            World::Settings st{};
            st.nVelocityIterations = (Uint32)s.integer(0, 10);
            st.nPositionIterations = (Uint32)s.pick({0, 2});
            st.enableWarmstarting  = s.boolean();
            world.updateSettings(st);
            float dt = s.pick({0.01f, 0.02f, 0.1f});
            s.note("step ", dt, " iterations ", st.nVelocityIterations, " ", st.nPositionIterations, st.enableWarmstarting ? " warm" : "");
            auto before = states();
            // gaps of the joints before the step
            std::vector<double> gaps;
            std::vector<D2>     posBefore;
            for (Body* b : bodies)
                posBefore.push_back(D2(b->position()));
            for (Link& l : links)
                gaps.push_back(l.kind == 1 || l.kind == 2 ? norm(D2(bodies[l.a]->toWorldSpace() * l.local[0]) - D2(bodies[l.b]->toWorldSpace() * l.local[1])) : 0);
            std::vector<ContactConstraint*> contacts;
            for (ContactConstraint& c : world.contacts())
                if (!c.isDead())
                    contacts.push_back(&c);
            world.step(dt);
            auto after = states();
            if (s.verbose())
                for (ContactConstraint* c : contacts)
                {
                    auto i = c->contactInfo();
                    s.note("  contact of ", find(c->bodies()[0]), " and ", find(c->bodies()[1]), " ", i.nContacts, " normal ", i.normal, " at ", i.incContacts[0], " ", i.refContacts[0],
                           " and ", i.incContacts[1], " ", i.refContacts[1]);
                }

            // who is linked with whom
            std::vector<int> comp(bodies.size());
            for (std::size_t i = 0; i < comp.size(); ++i)
                comp[i] = (int)i;
            auto join = [&](int a, int b) {
                if (dom[a] == 0 || dom[b] == 0)
                    return;
                int from = comp[a], to = comp[b];
                for (int& c : comp)
                    if (c == from)
                        c = to;
            };
            for (Link& l : links)
                join(l.a, l.b);
            for (ContactConstraint* c : contacts)
                join(find(c->bodies()[0]), find(c->bodies()[1]));

            double total0 = 0, total1 = 0, scale = 0;
            for (std::size_t i = 0; i < bodies.size(); ++i)
            {
                Body* b = bodies[i];
                PBT_CHECK(std::isfinite(after[i].v.x) && std::isfinite(after[i].v.y) && std::isfinite(after[i].w), "body ", i, " has velocity ", after[i].v);
                if (dom[i] == 0)
                {
                    structural = structural || !b->contacts().empty() || !b->constraints().empty();
                    PBT_CHECK(after[i].v.x == before[i].v.x && after[i].v.y == before[i].v.y && after[i].w == before[i].w, "the velocity of the structural body ", i,
                              " changed from ", before[i].v, " to ", after[i].v);
                    D2 p = posBefore[i] + before[i].v * dt;
                    PBT_CHECK(norm(D2(b->position()) - p) <= 1e-6 * (1 + norm(p)), "the structural body ", i, " is at ", b->position(), " instead of ", p);
                    continue;
                }
                total0 += b->mass() / dom[i] * dot(before[i].v, before[i].v) + b->inertia() / dom[i] * before[i].w * before[i].w;
                total1 += b->mass() / dom[i] * dot(after[i].v, after[i].v) + b->inertia() / dom[i] * after[i].w * after[i].w;
                // moving structural bodies give energy
                (void)scale;
            }
            bool still = true;
            for (std::size_t i = 0; i < bodies.size(); ++i)
                still = still && (dom[i] != 0 || norm(before[i].v) == 0);
            if (smooth && !st.enableWarmstarting && still)
            {
                energy = energy || total1 < total0 * 0.999;
                PBT_CHECK(total1 <= total0 * (1 + 1e-4) + 1e-6, "the kinetic energy grew from ", total0 / 2, " to ", total1 / 2);
            }

            for (std::size_t r = 0; r < bodies.size(); ++r)
            {
                if (comp[r] != (int)r || dom[r] == 0)
                    continue;
                bool   held = false; // by a structural body
                int    nc = 0, count = 0;
                double gap = 0;
                std::set<int> members;
                for (std::size_t i = 0; i < bodies.size(); ++i)
                    if (comp[i] == (int)r)
                        members.insert((int)i);
                for (std::size_t i = 0; i < links.size(); ++i)
                    if (members.count(links[i].a) || members.count(links[i].b))
                    {
                        ++count;
                        gap  = std::max(gap, gaps[i]);
                        held = held || dom[links[i].a] == 0 || dom[links[i].b] == 0;
                    }
                for (ContactConstraint* c : contacts)
                {
                    int a = find(c->bodies()[0]), b = find(c->bodies()[1]);
                    if (!members.count(a) && !members.count(b))
                        continue;
                    ++count, ++nc;
                    held = held || dom[a] == 0 || dom[b] == 0;
                    auto info = c->contactInfo();
                    for (Uint32 k = 0; k < info.nContacts; ++k)
                        gap = std::max(gap, norm(D2(info.incContacts[k]) - D2(info.refContacts[k])));
                }
                if (count == 0)
                {
                    PBT_CHECK(after[r].v.x == before[r].v.x && after[r].v.y == before[r].v.y && after[r].w == before[r].w, "the velocity of body ", r,
                              " that touches nothing changed");
                    continue;
                }
                if (held)
                    continue;
                D2     p0{}, p1{};
                double l0 = 0, l1 = 0, ps = 0, ls = 0, dp = 0, big = 0;
                D2     o = before[r].c;
                for (int i : members)
                {
                    double mm = bodies[i]->mass() / dom[i], I = bodies[i]->inertia() / dom[i];
                    p0 += before[i].v * mm;
                    p1 += after[i].v * mm;
                    D2 arm = before[i].c - o;
                    l0 += mm * cross(arm, before[i].v) + I * before[i].w;
                    l1 += mm * cross(arm, after[i].v) + I * after[i].w;
                    ps += mm * (norm(before[i].v) + norm(after[i].v));
                    big = std::max(big, norm(arm) + 4);
                    ls += mm * norm(arm) * (norm(before[i].v) + norm(after[i].v)) + I * (std::abs(before[i].w) + std::abs(after[i].w));
                    dp = std::max(dp, mm * norm(after[i].v - before[i].v));
                }
                exchanged = exchanged || dp > 1e-2 * ps;
                // impulses can be larger than what they change in the end
                double slack = 1e-5 * (1 + st.nVelocityIterations) * (ps + ls / big);
                PBT_CHECK(norm(p1 - p0) <= slack + 1e-5, "the momentum of the bodies with ", r, " went from ", p0, " to ", p1);
                if (st.nPositionIterations == 0 && (count == 1 || gap < 1e-5))
                {
                    angular = angular || (dp > 1e-2 * ps && members.size() > 1);
                    single  = single || nc == 1;
                    // friction can stay larger than what the last normal impulse allows
                    double moment = count == 1 ? 2.1 * gap * (smooth ? dp : ps) : 0;
                    PBT_CHECK(std::abs(l1 - l0) <= 1e-5 * (1 + st.nVelocityIterations) * (ls + ps * big) + moment + 1e-5, "the angular momentum of the bodies with ", r,
                              " went from ", l0, " to ", l1, " (gap ", gap, ", impulse ", dp, ")");
                }
            }
        }
        s.labelIf(structural, "structural bodies");
        s.labelIf(energy, "energy dissipated");
        s.labelIf(angular, "angular momentum exchanged");
        s.labelIf(single, "one contact");
        s.nontrivial(exchanged);
    }
};

void momentum(Source& s) { Machine{s}.run(); }

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C22",
         "Worlds of 2 to 6 bodies of generated shapes, densities, dominances and velocities, overlapping or not, with up to 5 "
         "joints, over 1 to 8 steps of generated settings: momentum of connected bodies, velocities of structural and free "
         "bodies, energy without friction and bounce. Non-trivial: connected bodies exchange more than 1% of their momentum.",
         {"levers of at most 4 units, in single precision"},
         {{"momentum", momentum, 60000, 2000000, 10}}}
    );
}
