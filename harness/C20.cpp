// C20: islands and the protocol of constraints
// SOURCES: math physics
// FLAGS: san cov -DSIMU_VERIF_SYSTEM_ALLOCATOR
#include "world_common.hpp"

#include <random>

#include "Simu/physics/Island.hpp"

namespace
{

typedef Vector<float, 6> V6;

enum Event
{
    isActiveE,
    initE,
    warmE,
    velE,
    posE
};

struct Trace
{
    struct Entry
    {
        int   probe;
        Event event;
    };
    std::vector<Entry> entries{};
    std::string        error{};
    void               fail(const std::string& e)
    {
        if (error.empty())
            error = e;
    }
};

// a constraint that applies the same impulse and correction each time
struct Probe : Constraint
{
    Probe(const Bodies& b, std::array<double, 2> d, Trace& t, int i) : Constraint{b, true}, dom{d}, trace{t}, id{i} {}

    void same(const Proxies& p, bool velocities)
    {
        Body* bs[2] = {this->bodies()[0], this->bodies()[1]};
        for (int i = 0; i < 2; ++i)
        {
            if (any(p[i].position() != bs[i]->position()) || p[i].orientation() != bs[i]->orientation() || any(p[i].centroid() != bs[i]->centroid()))
                trace.fail(pbt::cat("probe ", id, ": the proxy of a body is not at the position of that body"));
            if (velocities && (any(p[i].velocity() != bs[i]->velocity()) || p[i].angularVelocity() != bs[i]->angularVelocity()))
                trace.fail(pbt::cat("probe ", id, ": the proxy of a body does not have the velocity of that body"));
        }
        auto m = p.invMasses();
        for (int i = 0; i < 2; ++i)
        {
            double im = dom[i] == 0 ? 0 : dom[i] / bs[i]->mass(), iI = dom[i] == 0 ? 0 : dom[i] / bs[i]->inertia();
            if (!close(i ? m.m1 : m.m0, im, 1e-5 * im) || !close(i ? m.I1 : m.I0, iI, 1e-5 * iI))
                trace.fail(pbt::cat("probe ", id, ": inverse masses ", i ? m.m1 : m.m0, ", ", i ? m.I1 : m.I0, " instead of ", im, ", ", iI));
        }
    }

    bool isActive(const Proxies& p) override
    {
        trace.entries.push_back({id, isActiveE});
        same(p, false);
        return length < 0 ? active : apart(p[0].centroid(), p[1].centroid());
    }
    // some are active when their bodies are far enough, or close enough
    bool apart(Vec2 a, Vec2 b) const { return (normSquared(a - b) > length) == farther; }

    void initSolve(const Proxies& p) override
    {
        trace.entries.push_back({id, initE});
        same(p, true);
    }
    void warmstart(Proxies& p, float) override
    {
        trace.entries.push_back({id, warmE});
        p.applyImpulse(W);
    }
    void solveVelocities(Proxies& p, float dt) override
    {
        trace.entries.push_back({id, velE});
        if (dt != step)
            trace.fail("solveVelocities with another time step");
        p.applyImpulse(P);
    }
    void solvePositions(Proxies& p) override
    {
        trace.entries.push_back({id, posE});
        p.applyPositionCorrection(Q);
    }

    std::array<double, 2> dom;
    Trace&                trace;
    int                   id;
    bool                  active = true, farther = true;
    float                 length = -1; // squared
    float                 step   = 0;
    V6                    W{}, P{}, Q{};
};

struct Ref
{
    Body*  b;
    D2     v{}, p{};
    double w = 0, theta = 0;
};

struct Machine
{
    Source&                s;
    Trace                  trace{};
    World                  world{};
    std::vector<Body*>     bodies{};
    std::vector<Probe*>    probes{};
    bool                   anchor = false, changed = false;

    explicit Machine(Source& src) : s{src} {}

    void makeBodies(long n, double spread, double apart = 0)
    {
        for (long i = 0; i < n; ++i)
        {
            double dom = s.weighted({6, 3, 1}) == 0 ? 1 : s.boolean() ? 0 : 0.5;
            Body*  b   = makeBody(world, boxVerts(s.pick({1.0, 2.0}), 1), vec(s, spread) + Vec2{(float)(apart * i), 0}, s.boolean() ? 0 : s.real(-3, 3), dom);
            if (s.chance(1, 4))
                b->addCollider(descriptor(boxVerts(1, 1, Vec2{2, 0})));
            if (dom == 0 && s.chance(1, 3))
            {
                // an anchor: it has no mass, it needs none
                std::vector<Collider*> cs;
                for (const Collider& c : b->colliders())
                    cs.push_back(const_cast<Collider*>(&c));
                for (Collider* c : cs)
                    b->removeCollider(c);
                anchor = true;
            }
            bodies.push_back(b);
        }
    }

    void makeProbes(long n)
    {
        for (long i = 0; i < n; ++i)
        {
            Body* a = bodies[s.index(bodies.size())];
            Body* b = bodies[s.index(bodies.size())];
            std::array<double, 2> d{a->dominance(), b->dominance()};
            std::optional<Vec2>   given{};
            if (a == b)
                d = {1, 1};
            else if (a->mass() > 0 && b->mass() > 0 && s.chance(1, 3))
            {
                given = Vec2{s.pick({0.f, 1.f, 0.25f}), s.pick({0.f, 1.f, 2.f})};
                d     = {(*given)[0], (*given)[1]};
            }
            if ((d[0] == 0 && d[1] == 0) || (a == b && a->mass() == 0))
                continue;
            Bodies bs = a == b ? Bodies::singleBody(a) : given ? Bodies{{a, b}, *given} : Bodies{a, b};
            Probe* p  = world.makeConstraint<Probe>(bs, d, trace, (int)probes.size());
            p->active = !s.chance(1, 4);
            visits(*p, a, b, d);
            for (int k = 0; k < (a == b ? 3 : 6); ++k)
            {
                p->P[k] = (float)s.real(-1, 1);
                p->W[k] = (float)s.real(-1, 1);
                p->Q[k] = (float)s.real(-0.1, 0.1);
            }
            probes.push_back(p);
            s.note("probe ", probes.size() - 1, " on ", find(a), " and ", find(b), " dominances ", d[0], ", ", d[1], p->active ? "" : " inactive");
        }
    }

    // the bodies of a constraint: each visited once
    static void visits(Constraint& c, Body* a, Body* b, std::array<double, 2> d)
    {
        std::vector<const Body*> expected{a}, got, gotConst;
        if (a != b)
            expected.push_back(b);
        for (Body* body : c.bodies())
            got.push_back(body);
        const Constraint& cc = c;
        for (const Body* body : cc.bodies())
            gotConst.push_back(body);
        PBT_CHECK(got == expected && gotConst == expected && c.bodies().size() == expected.size(), "a constraint on ", expected.size(), " bodies visits ", got.size(), " bodies, ", gotConst.size(), " as a constant, or others");
        PBT_CHECK(cc.bodies()[0] == a && cc.bodies()[1] == b, "bodies of a constraint by index");
        Bodies same{{a, b}}, swapped{{b, a}};
        PBT_CHECK(cc.bodies() == same && !(cc.bodies() != same) && (cc.bodies() == swapped) == (a == b), "equality of bodies");
        PBT_CHECK(cc.bodies().isBodyStructural(a) == (d[0] == 0) && cc.bodies().isBodyStructural(b) == (d[a == b ? 0 : 1] == 0), "a body is structural for a constraint in which its dominance is 0");
    }

    int find(const Body* b) { return (int)(std::find(bodies.begin(), bodies.end(), b) - bodies.begin()); }

    static double dominanceIn(Probe* p, const Body* b)
    {
        const Constraint& c = *p;
        return c.bodies()[0] == b ? p->dom[0] : p->dom[1];
    }
    static bool has(Probe* p, const Body* b)
    {
        const Constraint& c = *p;
        return c.bodies()[0] == b || c.bodies()[1] == b;
    }

    // one island of many bodies, or a few
    void makeLarge()
    {
        std::size_t  n = s.size(20, 400);
        std::mt19937 rng((unsigned)s.integer(0, 1000000));
        auto         real = [&](double a, double b) { return (float)(a + (b - a) * (double)(rng() >> 8) / (1 << 24)); };
        int          shape = (int)s.integer(0, 4);
        bool         shuffled = s.boolean(), cut = s.chance(1, 3);
        for (std::size_t i = 0; i < n; ++i)
        {
            double dom = cut && i > 0 && rng() % 10 == 0 ? 0 : 1;
            bodies.push_back(makeBody(world, boxVerts(1 + (double)(rng() % 2), 1), Vec2{(float)(40 * (i % 20)), (float)(40 * (i / 20))}, real(-3, 3), dom));
            Vec2 speed;
            speed[0] = real(-1, 1), speed[1] = real(-1, 1);
            bodies.back()->setVelocity(speed);
        }
        std::vector<std::pair<std::size_t, std::size_t>> links;
        for (std::size_t i = 1; i < n; ++i)
        {
            if (cut && rng() % 30 == 0)
                continue;
            links.push_back({shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? (i - 1) / 2 : shape == 3 ? rng() % i : i >= 20 ? i - 20 : i - 1, i});
            if (shape == 4 && i % 20 != 0 && i >= 20)
                links.push_back({i - 1, i});
        }
        if (shuffled)
            std::shuffle(links.begin(), links.end(), rng);
        for (auto [i, j] : links)
        {
            if (rng() % 2)
                std::swap(i, j);
            Body *                a = bodies[i], *b = bodies[j];
            std::array<double, 2> d{a->dominance(), b->dominance()};
            if (d[0] == 0 && d[1] == 0)
                continue;
            Probe* p = world.makeConstraint<Probe>(Bodies{a, b}, d, trace, (int)probes.size());
            p->active = rng() % 50 != 0;
            for (int k = 0; k < 6; ++k)
                p->P[k] = real(-1, 1), p->W[k] = real(-1, 1), p->Q[k] = real(-0.1, 0.1);
            probes.push_back(p);
        }
        const char* names[] = {"chain", "star", "tree", "random tree", "grid"};
        s.note(names[shape], " of ", n, " bodies and ", probes.size(), " probes", shuffled ? ", shuffled" : "", cut ? ", cut" : "");
        s.label(names[shape]);
    }

    void protocol(bool large)
    {
        if (large)
            makeLarge();
        else
        {
            makeBodies(s.size(1, 7), 5, 40); // never in contact
            makeProbes(s.size(0, 10));
        }
        bool gravity = s.boolean();
        if (gravity)
            world.makeForceField<Gravity>(Vec2{1, -9});
        std::map<const Body*, std::vector<Probe*>> on;
        for (Probe* p : probes)
            for (int k = 0; k < 2; ++k)
                on[static_cast<const Constraint*>(p)->bodies()[k]].push_back(p);
        // some of the probes that share a body with it
        auto around = [&](Probe* p) {
            std::vector<Probe*> all;
            for (int k = 0; k < 2; ++k)
            {
                auto& l = on[static_cast<const Constraint*>(p)->bodies()[k]];
                if (l.size() <= 6)
                    all.insert(all.end(), l.begin(), l.end());
                else
                    for (std::size_t i = 0; i < 6; ++i)
                        all.push_back(l[i * (l.size() - 1) / 5]);
            }
            return all;
        };
        std::set<Body*> shared;
        bool            inactive = false, moving = false, depends = false;
        for (int step = 0, n = large ? 1 : (int)s.integer(1, 3); step < n; ++step)
        {
            World::Settings st{};
            st.nVelocityIterations = (Uint32)s.integer(0, large ? 20 : 6);
            st.nPositionIterations = (Uint32)s.integer(0, large ? 6 : 3);
            st.enableWarmstarting  = s.boolean();
            world.updateSettings(st);
            float dt = s.pick({0.01f, 0.1f, 0.5f});
            // constraints follow the mass of their bodies
            if (s.chance(1, 3))
            {
                Body* b = bodies[s.index(bodies.size())];
                if (b->mass() > 0)
                {
                    std::vector<Collider*> cs;
                    for (const Collider& c : b->colliders())
                        cs.push_back(const_cast<Collider*>(&c));
                    if (cs.size() > 1 && s.boolean())
                        b->removeCollider(cs[s.index(cs.size())]);
                    else
                        b->addCollider(descriptor(boxVerts(1, 2, Vec2{-2, 1})));
                    changed = true;
                }
            }
            std::vector<Ref> refs;
            for (Body* b : bodies)
            {
                if (!large && s.boolean())
                    b->setVelocity(vec(s, 2)), b->setAngularVelocity((float)s.real(-2, 2));
                else if (!large && s.chance(1, 4))
                    b->setVelocity(Vec2{}), b->setAngularVelocity(0);
                Ref r{b};
                r.v     = D2(b->velocity());
                r.w     = b->angularVelocity();
                r.p     = D2(b->position());
                r.theta = b->orientation();
                if (gravity && !b->isStructural())
                    r.v += D2{1, -9} * dt;
                moving = moving || (b->isStructural() && any(b->velocity() != Vec2{}));
                refs.push_back(r);
            }
            for (Probe* p : probes)
            {
                p->step = dt;
                if (large)
                    continue;
                if (s.chance(1, 5))
                    p->active = !p->active;
                const Constraint& c = *p;
                Vec2              x = c.bodies()[0]->centroid(), y = c.bodies()[1]->centroid();
                p->length = -1;
                if (s.chance(1, 3))
                {
                    // the step may make it active or not: that is for the next one
                    p->length  = normSquared(x - y) * (float)s.pick({1.001, 0.999, 1.02, 0.98});
                    p->farther = s.boolean();
                    p->active  = p->apart(x, y);
                    depends    = depends || !p->active;
                    s.note("probe ", p->id, " is active when ", p->farther ? "farther" : "closer", " than ", std::sqrt(p->length), p->active ? ", now" : "");
                }
            }
            s.note("step ", dt, " iterations ", st.nVelocityIterations, ", ", st.nPositionIterations, st.enableWarmstarting ? " warm" : " cold");

            trace.entries.clear();
            world.step(dt);
            PBT_CHECK(trace.error.empty(), trace.error);

            // counts and order of each probe
            std::vector<std::vector<std::size_t>> when[5];
            for (auto& w : when)
                w.resize(probes.size());
            for (std::size_t i = 0; i < trace.entries.size(); ++i)
                when[trace.entries[i].event][trace.entries[i].probe].push_back(i);
            auto count = [&](Event e, int id) { return when[e][id].size(); };
            for (Probe* p : probes)
            {
                int id = p->id;
                inactive = inactive || !p->active;
                PBT_CHECK(count(isActiveE, id) >= 1, "isActive is not called on probe ", id);
                PBT_CHECK(count(initE, id) == (p->active ? 1 : 0), "initSolve is called ", count(initE, id), " times on probe ", id);
                PBT_CHECK(count(warmE, id) == (p->active && st.enableWarmstarting ? 1 : 0), "warmstart is called ", count(warmE, id), " times on probe ", id);
                PBT_CHECK(count(velE, id) == (p->active ? st.nVelocityIterations : 0), "solveVelocities is called ", count(velE, id), " times on probe ", id);
                PBT_CHECK(count(posE, id) == (p->active ? st.nPositionIterations : 0), "solvePositions is called ", count(posE, id), " times on probe ", id);
                if (p->active)
                    PBT_CHECK(when[isActiveE][id].back() < when[initE][id].front(), "isActive is called after initSolve on probe ", id);
            }
            // and between probes of the same island
            for (Probe* p : probes)
                for (Probe* q : large ? around(p) : probes)
                {
                    if (!p->active || !q->active)
                        continue;
                    bool        together = false;
                    const auto& pb       = static_cast<const Constraint*>(p)->bodies();
                    for (Body* b : {const_cast<Body*>(pb[0]), const_cast<Body*>(pb[1])})
                        if (has(p, b) && has(q, b) && (dominanceIn(p, b) != 0 || dominanceIn(q, b) != 0))
                        {
                            together = true;
                            if (p != q)
                                shared.insert(b);
                        }
                    if (!together)
                        continue;
                    std::size_t last = 0;
                    bool        any  = false;
                    // every call of a phase on p is before every call of the next phases on q
                    for (int e = initE; e <= posE; ++e)
                    {
                        for (int f = e + 1; f <= posE; ++f)
                            if (!when[e][p->id].empty() && !when[f][q->id].empty())
                                PBT_CHECK(when[e][p->id].back() < when[f][q->id].front(), "phase ", e, " of probe ", p->id, " is after phase ", f, " of probe ", q->id);
                        if (e >= velE)
                            for (std::size_t k = 0; k + 1 < when[e][q->id].size(); ++k)
                                PBT_CHECK(when[e][p->id][k] < when[e][q->id][k + 1], "iteration ", k + 1, " of probe ", q->id, " is before iteration ", k,
                                          " of probe ", p->id);
                    }
                    (void)last, (void)any;
                }
            // the result on bodies
            for (Ref& r : refs)
            {
                D2     dp{};
                double dtheta = 0;
                for (Probe* p : large ? on[r.b] : probes)
                {
                    if (!p->active || !has(p, r.b))
                        continue;
                    for (int side = 0; side < 2; ++side)
                    {
                        const Constraint& c = *p;
                        if (c.bodies()[side] != r.b)
                            continue;
                        double im = p->dom[side] == 0 ? 0 : p->dom[side] / r.b->mass(), iI = p->dom[side] == 0 ? 0 : p->dom[side] / r.b->inertia();
                        double n = st.nVelocityIterations, w = st.enableWarmstarting;
                        int    o = 3 * side;
                        r.v += D2{p->P[o] * n + p->W[o] * w, p->P[o + 1] * n + p->W[o + 1] * w} * im;
                        r.w += (p->P[o + 2] * n + p->W[o + 2] * w) * iI;
                        dp += D2{p->Q[o], p->Q[o + 1]} * (im * st.nPositionIterations);
                        dtheta += p->Q[o + 2] * iI * st.nPositionIterations;
                    }
                }
                dp += r.v * dt;
                dtheta += r.w * dt;
                D2     v = D2(r.b->velocity()), p = D2(r.b->position());
                double tv = 1e-4 * (1 + norm(r.v)), tp = 1e-4 * (1 + norm(r.p) + norm(dp));
                PBT_CHECK(norm(v - r.v) <= tv, "body ", find(r.b), " has velocity ", r.b->velocity(), " instead of {", r.v.x, ", ", r.v.y, "}");
                PBT_CHECK(close(r.b->angularVelocity(), r.w, 1e-4 * (1 + std::abs(r.w))), "body ", find(r.b), " turns at ", r.b->angularVelocity(), " instead of ", r.w);
                PBT_CHECK(norm(p - (r.p + dp)) <= tp, "body ", find(r.b), " is at ", r.b->position(), " instead of {", r.p.x + dp.x, ", ", r.p.y + dp.y, "}");
                double turn = r.b->orientation() - (r.theta + dtheta);
                PBT_CHECK(std::abs(std::remainder(turn, 2 * M_PI)) <= 2e-4 * (1 + std::abs(dtheta)), "body ", find(r.b), " has orientation ", r.b->orientation(),
                          " instead of ", r.theta + dtheta);
            }
        }
        s.labelIf(inactive, "inactive constraint");
        s.labelIf(anchor, "structural body without colliders");
        s.labelIf(changed, "mass changed");
        s.labelIf(moving, "moving structural body");
        s.labelIf(depends, "activity of positions");
        s.nontrivial(!shared.empty());
    }

    void components()
    {
        makeBodies(s.size(1, 9), s.pick({3.0, 8.0, 100.0}));
        makeProbes(s.size(0, 10));
        for (Body* b : bodies)
            if (s.chance(1, 3))
                b->setVelocity(vec(s, 1));
        for (int i = 0, n = (int)s.integer(0, 3); i < n; ++i)
        {
            for (Probe* p : probes)
                p->step = 0.01f;
            world.step(0.01f);
        }
        for (Body* b : bodies)
            if (s.boolean())
                b->setVelocity(Vec2{}), b->setAngularVelocity(0);
        for (Probe* p : probes)
            if (s.chance(1, 5))
                p->active = !p->active;

        // the reference graph
        struct Link
        {
            const Body*       ends[2];
            double            dom[2];
            bool              active;
            const Constraint* c;
        };
        std::vector<Link> links;
        for (Probe* p : probes)
        {
            const Constraint& c = *p;
            links.push_back({{c.bodies()[0], c.bodies()[1]}, {p->dom[0], p->dom[1]}, p->active, p});
        }
        bool touching = false;
        for (ContactConstraint& k : world.contacts())
        {
            const Constraint& c = k;
            touching            = touching || k.contactInfo().nContacts > 0;
            links.push_back({{c.bodies()[0], c.bodies()[1]}, {c.bodies()[0]->dominance(), c.bodies()[1]->dominance()}, k.contactInfo().nContacts > 0, &c});
        }
        std::map<const Body*, bool> structural;
        for (Body* b : bodies)
        {
            bool still = all(b->velocity() == Vec2{}) && b->angularVelocity() == 0;
            for (Link& l : links)
                for (int k = 0; k < 2; ++k)
                    if (l.ends[k] == b && l.dom[k] != 0)
                        still = false;
            structural[b] = still;
            PBT_CHECK(b->interactsAsStructural() == still, "interactsAsStructural() of body ", find(b), " is ", b->interactsAsStructural());
        }

        std::vector<Body*> todo = bodies;
        // any order of roots
        for (std::size_t i = todo.size(); i > 1; --i)
            std::swap(todo[i - 1], todo[s.index(i)]);

        FreeListAllocator<int>             alloc;
        std::list<Island>                  islands;
        std::multiset<const Constraint*>   seen;
        std::map<const Body*, int>         seenBodies;
        std::size_t                        largest = 0;
        bool                               leaf    = false;
        while (!todo.empty())
        {
            Body* root = todo.back();
            islands.emplace_back(alloc);
            Island& island = islands.back();
            island.init(root);

            std::set<const Body*>       want{root};
            std::set<const Constraint*> wantC;
            std::vector<const Body*>    queue{root};
            while (!queue.empty())
            {
                const Body* b = queue.back();
                queue.pop_back();
                if (structural[b])
                    continue;
                for (Link& l : links)
                    if (l.active && (l.ends[0] == b || l.ends[1] == b))
                    {
                        wantC.insert(l.c);
                        for (const Body* e : l.ends)
                            if (want.insert(e).second)
                                queue.push_back(e);
                    }
            }
            std::multiset<const Body*>       got;
            std::multiset<const Constraint*> gotC;
            for (Body* b : island.bodies())
                got.insert(b);
            for (Constraint* c : island.constraints())
                gotC.insert(c);
            for (ContactConstraint* c : island.contacts())
                gotC.insert(c);
            PBT_CHECK((got == std::multiset<const Body*>(want.begin(), want.end())), "the island of body ", find(root), " has ", got.size(), " bodies instead of ", want.size());
            PBT_CHECK((gotC == std::multiset<const Constraint*>(wantC.begin(), wantC.end())), "the island of body ", find(root), " has ", gotC.size(),
                      " constraints instead of ", wantC.size());
            PBT_CHECK(island.hasConstraints() == !wantC.empty(), "hasConstraints()");
            PBT_CHECK(island.isAwake(), "isAwake()");
            for (const Constraint* c : gotC)
                PBT_CHECK(seen.insert(c) != seen.end() && seen.count(c) == 1, "a constraint is in two islands");
            for (const Body* b : got)
            {
                leaf = leaf || (structural[b] && got.size() > 1);
                PBT_CHECK(++seenBodies[b] == 1 || structural[b], "a body that is not structural is in two islands");
                std::erase(todo, b);
            }
            largest = std::max(largest, got.size());
            // as solveIslands
            island.endSolve();
        }
        for (Link& l : links)
            PBT_CHECK(seen.count(l.c) == (l.active ? 1 : 0), l.active ? "an active constraint is in no island" : "an inactive constraint is in an island");
        for (Body* b : bodies)
            PBT_CHECK(seenBodies[b] >= 1, "a body is in no island");
        s.labelIf(touching, "contacts");
        s.labelIf(leaf, "structural leaf");
        s.nontrivial(islands.size() > 1 && largest > 2);
    }
};

void protocol(Source& s) { Machine{s}.protocol(false); }
void large(Source& s) { Machine{s}.protocol(true); }
void components(Source& s) { Machine{s}.components(); }

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C20",
         "protocol: worlds of up to 7 bodies and 10 constraints (between two bodies or on one, with dominances of their own, "
         "active or not) that record their calls and apply fixed impulses, over 1 to 3 steps with generated settings; counts, "
         "order and resulting motion. large: the same with islands of up to 400 bodies. components: islands built from every body of such worlds, with contacts, against the "
         "connected components. Non-trivial: constraints that share a body, several islands with one of 3 bodies.",
         {},
         {{"protocol", protocol, 40000, 1000000, 10}, {"large", large, 1500, 60000, 20}, {"components", components, 40000, 1000000, 10}}}
    );
}
