// C19: lifetime of physics objects
// SOURCES: math physics
// FLAGS: san cov -DSIMU_VERIF_SYSTEM_ALLOCATOR
#include "world_common.hpp"

namespace
{

enum Kind
{
    body,
    constraint,
    force,
    contact
};

struct Plan // what an object does by itself
{
    int watch      = -1; // dies when that object is dead
    int onKill     = -1; // kills that object
    int onDestroy  = -1; // kills that object
    int killAt     = -1; // kills itself in that preStep
    int killAtPost = -1; // kills itself in that postStep
    int spawn      = 0;  // 1: makes a body in onConstruction, 2: in onDestruction
};

struct Rec
{
    Kind           kind;
    PhysicsObject* ptr;
    Plan           plan{};
    std::vector<int> on{}; // bodies of a constraint or contact
    bool           alive = true, killed = false, flag = false;
    int            constructed = 0, destroyed = 0, kills = 0, pre = 0, post = 0;
};

struct Log
{
    std::vector<Rec> recs{};
    std::string      error{};
    int              deletions = 0;
    bool             inStep    = false;
    std::vector<Kind> order{};

    void fail(const std::string& e)
    {
        if (error.empty())
            error = e;
    }

    int add(Kind k, PhysicsObject* p, const Plan& plan)
    {
        recs.push_back(Rec{k, p, plan});
        return (int)recs.size() - 1;
    }

    void kill(int id)
    {
        if (id >= 0 && recs[id].alive && !recs[id].killed)
            recs[id].ptr->kill();
    }
};

template <class Base>
struct Hooked : Base
{
    template <class... Args>
    Hooked(Log& l, Kind k, const Plan& p, Args&&... args) : Base{std::forward<Args>(args)...}, log{l}, id{l.add(k, this, p)}
    {
    }
    ~Hooked() override
    {
        if (!rec().alive)
            log.fail("an object is destroyed twice");
        if (log.inStep && rec().destroyed == 0)
            log.fail("an object is removed without onDestruction");
        rec().alive = false;
        ++log.deletions;
    }

    Rec&       rec() { return log.recs[id]; }
    const Rec& rec() const { return log.recs[id]; }

    void onConstruction(World& world) override
    {
        Base::onConstruction(world);
        ++rec().constructed;
        if (rec().plan.spawn == 1)
            spawn(world);
    }
    void onDestruction(World& world) override
    {
        Base::onDestruction(world);
        ++rec().destroyed;
        if (!log.inStep)
            log.fail("onDestruction outside of a step");
        if (log.deletions != 0)
            log.fail("an object is removed before onDestruction is called on all objects");
        log.kill(rec().plan.onDestroy);
        if (rec().plan.spawn == 2)
            spawn(world);
    }
    void onKill() override
    {
        Base::onKill();
        ++rec().kills;
        rec().killed = true;
        log.kill(rec().plan.onKill);
    }
    bool shouldDie() const override
    {
        if (rec().plan.watch >= 0 && !log.recs[rec().plan.watch].alive)
        {
            log.fail("an object is removed before isDead is called on all objects");
            return true;
        }
        return Base::shouldDie() || rec().flag || (rec().plan.watch >= 0 && log.recs[rec().plan.watch].ptr->isDead());
    }
    void preStep() override
    {
        Base::preStep();
        if (rec().constructed != 1)
            log.fail("preStep before onConstruction");
        if (rec().post != rec().pre && rec().kind != contact)
            log.fail("preStep twice");
        log.order.push_back(rec().kind);
        ++rec().pre;
        if (rec().plan.killAt == rec().pre)
            log.kill(id);
    }
    void postStep() override
    {
        Base::postStep();
        ++rec().post;
        log.order.push_back(rec().kind);
        if (rec().plan.killAtPost == rec().post)
            log.kill(id);
    }

    void spawn(World& world);

    Log& log;
    int  id;
};

typedef Hooked<Body>               TBody;
typedef Hooked<RotationConstraint> TRotation;
typedef Hooked<HingeConstraint>    THinge;
typedef Hooked<LinearField>        TForce;
typedef Hooked<Gravity>            TGravity;
typedef Hooked<ContactConstraint>  TContact;

template <class Base>
void Hooked<Base>::spawn(World& world)
{
    BodyDescriptor d{};
    d.position = Vec2{(float)(id * 3), 40.f};
    world.makeBody<TBody>(log, body, Plan{}, d)->addCollider(descriptor(boxVerts(1, 1)));
}

struct Machine
{
    Source& s;
    Log&    log;
    World   world{};
    bool    chain = false, contactsDied = false, sameStep = false, spawned = false, selfKill = false;
    int     died = 0;

    Machine(Source& src, Log& theLog) : s{src}, log{theLog}
    {
        Log* l = &log;
        l->recs.reserve(4096);
        world.setContactFactory([l](Collider& a, Collider& b, const World::ContactAlloc& alloc) -> UniquePtr<ContactConstraint> {
            auto c = makeUnique<TContact>(alloc, *l, contact, Plan{}, a, b);
            static_cast<TContact*>(c.get())->rec().on = {static_cast<TBody*>(a.body())->id, static_cast<TBody*>(b.body())->id};
            return c;
        });
    }

    std::vector<int> living(std::initializer_list<Kind> kinds)
    {
        std::vector<int> r;
        for (std::size_t i = 0; i < log.recs.size(); ++i)
            if (log.recs[i].alive && std::find(kinds.begin(), kinds.end(), log.recs[i].kind) != kinds.end())
                r.push_back((int)i);
        return r;
    }

    int anyOf(std::initializer_list<Kind> kinds)
    {
        auto l = living(kinds);
        return l.empty() ? -1 : l[s.index(l.size())];
    }

    Plan plan()
    {
        Plan p;
        switch (s.weighted({5, 4, 3, 3, 1, 1, 1, 1}))
        {
            case 1: p.watch = anyOf({body, constraint, force, contact}); break;
            case 2: p.onKill = anyOf({body, constraint, force, contact}); break;
            case 3: p.onDestroy = anyOf({body, constraint, force, contact}); break;
            case 4: p.killAt = (int)s.integer(1, 4); break;
            case 5: p.killAtPost = (int)s.integer(1, 4); break;
            case 6: p.spawn = 1; break;
            case 7: p.spawn = 2; break;
        }
        spawned  = spawned || p.spawn;
        selfKill = selfKill || p.killAt >= 0 || p.killAtPost >= 0;
        return p;
    }

    void make()
    {
        Plan p      = plan();
        int  before = (int)log.recs.size();
        int  id     = -1;
        switch (s.weighted({5, 4, 3}))
        {
            case 1:
            {
                // the mass of a body that has no collider is not defined
                std::vector<int> bs;
                for (int i : living({body}))
                    if (static_cast<TBody*>(log.recs[i].ptr)->mass() > 0)
                        bs.push_back(i);
                if (bs.size() < 2)
                    return;
                int a = bs[s.index(bs.size())], b = bs[s.index(bs.size())];
                if (a == b)
                    return;
                TBody *ba = static_cast<TBody*>(log.recs[a].ptr), *bb = static_cast<TBody*>(log.recs[b].ptr);
                if (ba->isStructural() && bb->isStructural())
                    return;
                bool off = s.boolean();
                if (s.boolean())
                    id = world.makeConstraint<TRotation>(log, constraint, p, Bodies{ba, bb}, off)->id;
                else
                    id = world.makeConstraint<THinge>(log, constraint, p, Bodies{ba, bb}, ba->centroid(), off)->id;
                log.recs[id].on = {a, b};
                break;
            }
            case 2:
                if (s.boolean())
                    id = world.makeForceField<TForce>(log, force, p, Vec2{1, 2})->id;
                else
                    id = world.makeForceField<TGravity>(log, force, p)->id;
                break;
            default:
            {
                BodyDescriptor d{};
                d.position  = vec(s, s.boolean() ? 1 : 4);
                d.dominance = s.chance(1, 5) ? 0.f : 1.f;
                TBody* b    = world.makeBody<TBody>(log, body, p, d);
                id          = b->id;
                long n      = s.weighted({1, 5, 2});
                for (long i = 0; i < n; ++i)
                    b->addCollider(descriptor(boxVerts(1 + i, 2, vec(s, 1))));
                b->setVelocity(vec(s, 3));
            }
        }
        s.note("object ", id, " kind ", log.recs[id].kind, " watch ", p.watch, " onKill ", p.onKill, " onDestroy ", p.onDestroy, " killAt ", p.killAt,
               " ", p.killAtPost, " spawn ", p.spawn);
        for (std::size_t i = before; i < log.recs.size(); ++i)
            PBT_CHECK(log.recs[i].constructed == 1, "onConstruction was called ", log.recs[i].constructed, " times");
    }

    bool dead(int id)
    {
        const Rec& r = log.recs[id];
        if (r.killed || r.flag)
            return true;
        for (int b : r.on)
            if (dead(b))
                return true;
        return r.plan.watch >= 0 && dead(r.plan.watch);
    }

    void check()
    {
        PBT_CHECK(log.error.empty(), log.error);
        std::set<PhysicsObject*> got[4], want[4];
        for (Body& b : world.bodies())
            got[body].insert(&b);
        for (Constraint& c : world.constraints())
            got[constraint].insert(&c);
        for (ForceField& f : world.forceFields())
            got[force].insert(&f);
        for (ContactConstraint& c : world.contacts())
            got[contact].insert(&c);
        for (std::size_t i = 0; i < log.recs.size(); ++i)
            if (log.recs[i].alive)
            {
                want[log.recs[i].kind].insert(log.recs[i].ptr);
                PBT_CHECK(log.recs[i].ptr->isDead() == dead((int)i), "object ", i, " isDead() is ", log.recs[i].ptr->isDead());
            }
        for (int k = 0; k < 4; ++k)
            PBT_CHECK(got[k] == want[k], "the world gives ", got[k].size(), " objects of kind ", k, " instead of ", want[k].size());
        PBT_CHECK(log.error.empty(), log.error);
    }

    void step()
    {
        float dt = s.pick({0.02f, 0.f, 0.1f});
        s.note("step ", dt);
        std::vector<int> dying, staying;
        for (int id : living({body, constraint, force, contact}))
        {
            (dead(id) ? dying : staying).push_back(id);
            log.recs[id].pre = log.recs[id].post = std::max(log.recs[id].pre, log.recs[id].post);
        }
        int before = (int)log.recs.size();
        std::vector<Rec> old = log.recs;
        log.deletions        = 0;
        log.inStep           = true;
        log.order.clear();
        world.step(dt);
        log.inStep = false;
        PBT_CHECK(log.error.empty(), log.error);
        for (int id : dying)
        {
            PBT_CHECK(!log.recs[id].alive, "object ", id, " is dead, it was not removed");
            PBT_CHECK(log.recs[id].destroyed == 1, "onDestruction was called ", log.recs[id].destroyed, " times on object ", id);
            PBT_CHECK(log.recs[id].pre == old[id].pre && log.recs[id].post == old[id].post, "a dead object was stepped");
            contactsDied = contactsDied || log.recs[id].kind == contact;
            chain        = chain || !log.recs[id].killed;
        }
        died += (int)dying.size();
        sameStep = sameStep || dying.size() > 2;
        for (int id : staying)
        {
            PBT_CHECK(log.recs[id].alive, "object ", id, " was removed, it was not dead");
            PBT_CHECK(log.recs[id].destroyed == 0, "onDestruction on a living object");
            PBT_CHECK(log.recs[id].pre == old[id].pre + 1, "preStep was called ", log.recs[id].pre - old[id].pre, " times in a step");
            PBT_CHECK(log.recs[id].post == old[id].post + 1, "postStep was called ", log.recs[id].post - old[id].post, " times in a step");
        }
        for (std::size_t i = before; i < log.recs.size(); ++i)
        {
            PBT_CHECK(log.recs[i].constructed == 1, "onConstruction was called ", log.recs[i].constructed, " times");
            PBT_CHECK(log.recs[i].alive, "a new object was removed");
            PBT_CHECK(log.recs[i].post == 1, "postStep was called ", log.recs[i].post, " times on a new object");
            PBT_CHECK(dt > 0 || log.recs[i].kind != contact, "a contact was made in a step of no time");
        }
        // Body, Constraint then ForceField, twice
        int phase = 0, last = -1;
        for (Kind k : log.order)
        {
            if (k == contact)
                continue;
            if (k < last)
                ++phase;
            last = k;
        }
        PBT_CHECK(phase <= 1, "objects are not stepped in the order bodies, constraints, force fields");
    }

    void run()
    {
        long first = s.size(0, 8);
        for (long i = 0; i < first; ++i)
            make();
        long n = s.size(4, 40);
        for (long i = 0; i < n; ++i)
        {
            switch (s.weighted({8, 7, 3, 2, 1}))
            {
                case 0:
                    if (living({body, constraint, force}).size() < 16)
                        make();
                    break;
                case 1: step(); break;
                case 2:
                {
                    int id = anyOf({body, constraint, force, contact});
                    if (id >= 0 && !log.recs[id].killed)
                    {
                        s.note("kill ", id);
                        log.recs[id].ptr->kill();
                        PBT_CHECK(log.recs[id].kills == 1, "onKill was called ", log.recs[id].kills, " times");
                        PBT_CHECK(log.recs[id].ptr->isDead(), "killed but not dead");
                    }
                    break;
                }
                case 3:
                {
                    int id = anyOf({body, constraint, force, contact});
                    if (id >= 0)
                    {
                        s.note("should die ", id);
                        log.recs[id].flag = true;
                    }
                    break;
                }
                default:
                    if (s.chance(1, 4))
                    {
                        s.note("clear");
                        world.clear();
                        for (Rec& r : log.recs)
                            PBT_CHECK(!r.alive, "clear keeps an object");
                    }
            }
            check();
        }
        s.labelIf(chain, "dies by condition");
        s.labelIf(contactsDied, "contacts died");
        s.labelIf(sameStep, "several deaths in a step");
        s.labelIf(spawned, "spawns");
        s.labelIf(selfKill, "kills itself in a step");
        s.nontrivial(chain && contactsDied && died > 3);
    }
};

void history(Source& s)
{
    Log log;
    {
        Machine m{s, log};
        m.run();
    }
    for (Rec& r : log.recs)
        PBT_CHECK(!r.alive, "an object outlives its world");
    PBT_CHECK(log.error.empty(), log.error);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C19",
         "Histories of up to 40 operations on a world of bodies, constraints, force fields and contacts whose hooks record "
         "each call: objects that die with others, kill others when they are killed or destroyed, kill themselves in a step, "
         "make bodies when they are made or destroyed; steps, kills, death conditions, clear. Non-trivial: objects that die "
         "by their condition, contacts that die and more than 3 deaths.",
         {"objects do not kill each other in cycles"},
         {{"history", history, 40000, 1000000, 10}}}
    );
}
