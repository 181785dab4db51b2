// C18: bookkeeping of contacts
// SOURCES: math physics
// FLAGS: san cov -DSIMU_VERIF_SYSTEM_ALLOCATOR
#include "world_common.hpp"

namespace
{

struct Log
{
    std::set<int> alive{};
    int           next    = 0;
    int           factory = 0;
};

struct Tracked : ContactConstraint
{
    Tracked(Collider& a, Collider& b, Log& l) : ContactConstraint{a, b}, log{l}, id{l.next++}, factory{l.factory}
    {
        first  = &a;
        second = &b;
        log.alive.insert(id);
    }
    ~Tracked() override { log.alive.erase(id); }
    Log&      log;
    int       id, factory;
    Collider *first, *second;
};

struct Joint
{
    Constraint* c;
    Body *      a, *b;
    bool        disables;
    bool        dead = false;
};

struct Machine
{
    typedef std::pair<const Collider*, const Collider*> Pair;

    Source&            s;
    Log                log{};
    World              world{};
    std::vector<Body*> bodies{};
    std::set<Body*>    dead{};
    std::vector<Joint> joints{};
    std::map<Pair, int> before{}; // living contacts
    double             spread;
    bool               persisted = false, parted = false, disabled = false, ignored = false, replaced = false, multiple = false;

    static Pair key(const Collider* a, const Collider* b) { return a < b ? Pair{a, b} : Pair{b, a}; }

    World::ContactFactory factory()
    {
        Log* l = &log;
        return [l](Collider& a, Collider& b, const World::ContactAlloc& alloc) -> UniquePtr<ContactConstraint> {
            return makeUnique<Tracked>(alloc, a, b, *l);
        };
    }

    explicit Machine(Source& src) : s{src}
    {
        spread = s.pick({2.0, 5.0, 12.0});
        world.setContactFactory(factory());
    }

    void make()
    {
        BodyDescriptor d{};
        d.position    = vec(s, spread);
        d.orientation = s.boolean() ? 0.f : (float)s.real(-4, 4);
        d.dominance   = s.chance(1, 5) ? 0.f : s.chance(1, 6) ? 0.5f : 1.f;
        Body* b       = world.makeBody(d);
        bodies.push_back(b);
        long n = s.weighted({0, 5, 3, 1});
        for (long i = 0; i < n; ++i)
            b->addCollider(descriptor(localPolygon(s, 3)));
        b->setVelocity(vec(s, 5));
        b->setAngularVelocity((float)s.real(-3, 3));
        s.note("body ", bodies.size() - 1, " at ", d.position, " with ", n, " colliders, dominance ", d.dominance);
    }

    Body* any() { return bodies.empty() ? nullptr : bodies[s.index(bodies.size())]; }

    static long count(Body* b) { return std::distance(b->colliders().begin(), b->colliders().end()); }

    bool constrained(Body* b)
    {
        for (Joint& j : joints)
            if (j.a == b || j.b == b)
                return true;
        return false;
    }

    static bool overlap(const BoundingBox& a, const BoundingBox& b)
    {
        return a.min()[0] <= b.max()[0] && b.min()[0] <= a.max()[0] && a.min()[1] <= b.max()[1] && b.min()[1] <= a.max()[1];
    }

    // what holds between any two operations
    void consistent()
    {
        std::set<int>                        seen;
        std::map<Body*, std::set<const ContactConstraint*>> of;
        for (ContactConstraint& c : world.contacts())
        {
            Tracked& t = static_cast<Tracked&>(c);
            PBT_CHECK(log.alive.count(t.id), "contacts() gives a destroyed contact");
            PBT_CHECK(seen.insert(t.id).second, "contacts() gives a contact twice");
            if (!t.isDead())
            {
                PBT_CHECK((c.colliders()[0] == t.first && c.colliders()[1] == t.second), "colliders() of a contact");
                PBT_CHECK((t.first->body() == c.bodies()[0] && t.second->body() == c.bodies()[1]), "bodies() of a contact");
            }
            for (Body* b : c.bodies())
                of[b].insert(&c);
        }
        PBT_CHECK(seen == log.alive, log.alive.size(), " contacts exist, contacts() gives ", seen.size());
        std::size_t n = 0;
        for (Body* b : bodies)
        {
            std::multiset<const ContactConstraint*> mine;
            for (ContactConstraint* c : b->contacts())
                mine.insert(c);
            PBT_CHECK((mine == std::multiset<const ContactConstraint*>(of[b].begin(), of[b].end())), "a body has ", mine.size(),
                      " contacts, the world has ", of[b].size(), " of that body");
            n += mine.size();

            std::multiset<const Constraint*> js, want;
            for (Constraint* c : b->constraints())
                js.insert(c);
            for (Joint& j : joints)
                if (j.a == b || j.b == b)
                    want.insert(j.c);
            PBT_CHECK(js == want, "a body has ", js.size(), " constraints instead of ", want.size());
        }
        PBT_CHECK(n == 2 * seen.size(), "contacts of removed bodies");
        std::multiset<const Constraint*> js, want;
        for (Constraint& c : world.constraints())
            js.insert(&c);
        for (Joint& j : joints)
            want.insert(j.c);
        PBT_CHECK(js == want, "constraints() gives ", js.size(), " constraints instead of ", want.size());
    }

    void step()
    {
        float dt = s.pick({0.02f, 0.1f, 0.f, 0.3f});
        s.note("step ", dt);
        std::set<int> alive; // contacts that live when the step starts
        for (ContactConstraint& c : world.contacts())
            if (!c.isDead())
                alive.insert(static_cast<Tracked&>(c).id);

        world.step(dt);

        std::erase_if(joints, [&](Joint& j) { return j.dead || dead.count(j.a) || dead.count(j.b); });
        std::erase_if(bodies, [&](Body* b) { return dead.count(b) != 0; });
        dead.clear();

        std::map<Pair, int> now;
        std::set<int>       stay;
        for (ContactConstraint& c : world.contacts())
        {
            Tracked& t = static_cast<Tracked&>(c);
            stay.insert(t.id);
            if (!c.isDead())
                PBT_CHECK(now.emplace(key(t.first, t.second), t.id).second, "a pair of colliders has two contacts");
            if (!alive.count(t.id))
                PBT_CHECK(t.factory == log.factory, "a contact was not made by the last factory");
        }

        if (dt <= 0)
        {
            PBT_CHECK(stay == alive, "a step of no time changes the contacts: ", stay.size(), " instead of ", alive.size());
            before = now;
            return;
        }

        std::vector<const Collider*> all;
        for (Body* b : bodies)
            for (const Collider& c : b->colliders())
                all.push_back(&c);
        std::size_t want = 0;
        for (std::size_t i = 0; i < all.size(); ++i)
            for (std::size_t k = i + 1; k < all.size(); ++k)
            {
                const Body *a = all[i]->body(), *b = all[k]->body();
                Pair        p   = key(all[i], all[k]);
                bool        hit = overlap(all[i]->boundingBox(), all[k]->boundingBox());
                bool        off = false;
                for (Joint& j : joints)
                    off = off || (j.disables && ((j.a == a && j.b == b) || (j.a == b && j.b == a)));
                bool neither = a->isStructural() && b->isStructural();
                bool expect  = hit && a != b && !off && !neither;
                disabled     = disabled || (hit && a != b && off);
                ignored      = ignored || (hit && a != b && neither);
                PBT_CHECK(now.count(p) == (expect ? 1 : 0), expect ? "no contact for colliders whose bounds overlap"
                          : !hit                                   ? "a contact for colliders whose bounds do not overlap"
                          : a == b                                 ? "a contact between colliders of the same body"
                          : off                                    ? "a contact between bodies whose constraint disables it"
                                                                   : "a contact between structural bodies");
                auto was = before.find(p);
                if (expect)
                {
                    ++want;
                    if (was != before.end() && alive.count(was->second))
                    {
                        PBT_CHECK(now[p] == was->second, "the contact of bounds that still overlap was replaced");
                        persisted = true;
                    }
                    else
                        PBT_CHECK(!alive.count(now[p]), "the new contact is not new");
                }
                else if (was != before.end())
                    parted = true;
            }
        PBT_CHECK(want == now.size(), "contacts of unknown colliders");
        multiple = multiple || want > 2;
        before   = now;
    }

    void run()
    {
        long first = s.size(1, 5);
        for (long i = 0; i < first; ++i)
            make();
        long n = s.size(3, 40);
        for (long i = 0; i < n; ++i)
        {
            switch (s.weighted({4, 9, 2, 2, 2, 2, 2, 1, 2}))
            {
                case 0:
                    if (bodies.size() < 9)
                        make();
                    break;
                case 1: step(); break;
                case 2: // new collider
                    if (Body* b = any())
                        if (count(b) < 4)
                        {
                            b->addCollider(descriptor(localPolygon(s, 3)));
                            s.note("add a collider");
                        }
                    break;
                case 3: // remove a collider
                    if (Body* b = any())
                        if (count(b) > 1 || (count(b) == 1 && !constrained(b)))
                        {
                            auto it = b->colliders().begin();
                            std::advance(it, s.index(count(b)));
                            b->removeCollider(const_cast<Collider*>(&*it));
                            s.note("remove a collider");
                        }
                    break;
                case 4: // joint
                    if (Body* a = any())
                    {
                        Body* b = any();
                        if (a == b || count(a) == 0 || count(b) == 0 || (a->isStructural() && b->isStructural()))
                            break;
                        bool  off = s.chance(2, 3);
                        Joint j{nullptr, a, b, off};
                        switch (s.index(3))
                        {
                            case 0: j.c = world.makeConstraint<RotationConstraint>(Bodies{a, b}, off); break;
                            case 1: j.c = world.makeConstraint<HingeConstraint>(Bodies{a, b}, a->centroid(), off); break;
                            default:
                                j.c = world.makeConstraint<DistanceConstraint>(
                                    Bodies{a, b}, std::array<Vec2, 2>{a->centroid(), b->centroid() + Vec2{0.1f, 0.f}},
                                    std::optional<float>{}, std::optional<float>{100.f}, off);
                        }
                        joints.push_back(j);
                        s.note("joint, contacts ", off ? "disabled" : "enabled");
                    }
                    break;
                case 5:
                    if (!joints.empty())
                    {
                        Joint& j = joints[s.index(joints.size())];
                        j.c->kill();
                        j.dead = true;
                        s.note("kill a joint");
                    }
                    break;
                case 6:
                    if (Body* b = any())
                    {
                        if (s.boolean())
                        {
                            b->kill();
                            dead.insert(b);
                            s.note("kill a body");
                        }
                        else
                        {
                            // away and back, or through the others
                            b->setVelocity(vec(s, 30));
                            s.note("push a body");
                        }
                    }
                    break;
                case 7:
                    if (s.boolean())
                    {
                        ++log.factory;
                        world.setContactFactory(factory());
                        s.note("new factory");
                        PBT_CHECK(log.alive.empty(), "setContactFactory keeps contacts");
                        replaced = replaced || !before.empty();
                        before.clear();
                    }
                    else if (s.boolean())
                    {
                        world.clear();
                        s.note("clear");
                        PBT_CHECK(log.alive.empty(), "clear keeps contacts");
                        bodies.clear(), joints.clear(), before.clear(), dead.clear();
                    }
                    break;
                default: // the user kills a contact
                {
                    std::vector<ContactConstraint*> cs;
                    for (ContactConstraint& c : world.contacts())
                        cs.push_back(&c);
                    if (!cs.empty())
                    {
                        // the order of contacts() depends on addresses
                        std::sort(cs.begin(), cs.end(), [](auto a, auto b) { return static_cast<Tracked*>(a)->id < static_cast<Tracked*>(b)->id; });
                        cs[s.index(cs.size())]->kill();
                        s.note("kill a contact");
                    }
                }
            }
            consistent();
        }
        step();
        consistent();
        s.labelIf(persisted, "contact persists");
        s.labelIf(parted, "contact ends");
        s.labelIf(disabled, "contact disabled");
        s.labelIf(ignored, "structural pair");
        s.labelIf(replaced, "factory replaced");
        s.nontrivial(persisted && parted && multiple);
    }
};

void history(Source& s) { Machine{s}.run(); }

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C18",
         "Histories of up to 40 operations on a world of up to 9 bodies of 1 to 3 colliders (structural or not): new bodies, "
         "steps (also of no time), added and removed colliders, joints that disable contacts or not, kills of joints, bodies "
         "and contacts, new contact factories, clear. After each operation the contacts of the world and of its bodies "
         "agree; after each step there is one contact per pair whose bounds overlap. Non-trivial: contacts that persist, "
         "contacts that end and more than two at once.",
         {},
         {{"history", history, 20000, 500000, 10}}}
    );
}
