// C26: the same history always gives the same world
// SOURCES: math physics
// FLAGS: san cov
#include "world_common.hpp"

#include <cstdlib>
#include <new>
#include <thread>

// what fresh memory holds, and how far apart the blocks are
static thread_local int      fillByte = 0;
static thread_local unsigned padding  = 0;

void* operator new(std::size_t n)
{
    std::size_t extra = padding ? (padding = padding * 1103515245u + 12345u) % 512 : 0;
    void*       p     = std::malloc(n + extra);
    if (!p)
        throw std::bad_alloc{};
    std::memset(p, fillByte, n);
    return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](std::size_t n) { return operator new(n); }
void  operator delete(void* p) noexcept { std::free(p); }
void  operator delete[](void* p) noexcept { std::free(p); }
void  operator delete(void* p, std::size_t) noexcept { std::free(p); }
void  operator delete[](void* p, std::size_t) noexcept { std::free(p); }

namespace
{

enum Kind
{
    body,
    addCollider,
    removeCollider,
    push,
    joint,
    field,
    killBody,
    killJoint,
    killField,
    settings,
    step
};

struct Op
{
    Kind              kind;
    std::vector<Vec2> verts{};
    double            x[8]{};
    unsigned          i[4]{};
};

typedef std::vector<Op> Script;

Script makeScript(Source& s, long n)
{
    Script r;
    double spread = s.pick({2.0, 6.0});
    for (long k = 0; k < n; ++k)
    {
        Op op{};
        op.kind = (Kind)(k == 0 ? 0 : s.weighted({6, 2, 1, 3, 3, 1, 1, 1, 1, 1, 8}));
        for (unsigned& i : op.i)
            i = (unsigned)s.integer(0, 7);
        switch (op.kind)
        {
            case body:
                op.verts = s.chance(1, 3) ? localPolygon(s, 1.5) : convexAround(s, 0.4, 2);
                op.x[0]  = s.real(-spread, spread);
                op.x[1]  = s.real(-spread, spread);
                op.x[2]  = s.boolean() ? 0 : s.real(-3, 3);
                op.x[3]  = s.pick({1.0, 1.0, 0.0, 0.5, 2.0});
                op.x[4]  = s.real(0, 1);
                op.x[5]  = s.real(0, 1);
                break;
            case addCollider:
                op.verts = localPolygon(s, 1.5);
                op.x[4]  = s.real(0, 1);
                op.x[5]  = s.real(0, 1);
                break;
            case push:
                for (double& x : op.x)
                    x = s.real(-4, 4);
                break;
            case joint:
                for (double& x : op.x)
                    x = s.real(-2, 2);
                break;
            case field:
                for (double& x : op.x)
                    x = s.real(-6, 6);
                break;
            case step:
                op.i[0] = (unsigned)s.size(1, 12);
                op.x[0] = s.pick({0.01, 0.02, 1. / 60, 0.001, 0.0});
                break;
            default: break;
        }
        r.push_back(op);
    }
    return r;
}

struct Sim
{
    World&                    world;
    std::vector<Body*>        bodies{};
    std::vector<Constraint*>  joints{};
    std::vector<ForceField*>  fields{};
    std::map<const void*, unsigned> ids{};
    std::vector<std::vector<Collider*>> colliders{};
    unsigned                  nextId = 0;
    std::vector<std::uint32_t> trace{};
    bool                      touching = false, jointed = false;

    explicit Sim(World& w) : world{w} {}

    void put(float f)
    {
        std::uint32_t u;
        std::memcpy(&u, &f, 4);
        trace.push_back(u);
    }
    void put(Vec2 v) { put(v[0]), put(v[1]); }

    void drop(std::size_t i)
    {
        for (Constraint* c : bodies[i]->constraints())
            std::erase(joints, c);
        bodies.erase(bodies.begin() + i);
        colliders.erase(colliders.begin() + i);
    }

    void record()
    {
        for (Body* b : bodies)
        {
            put(b->position());
            put(b->orientation());
            put(b->velocity());
            put(b->angularVelocity());
            put(b->mass());
        }
        std::map<std::pair<unsigned, unsigned>, std::vector<float>> contacts;
        for (ContactConstraint& c : world.contacts())
        {
            auto               info = c.contactInfo();
            std::vector<float> v{(float)info.nContacts, c.isDead() ? 1.f : 0.f};
            for (unsigned k = 0; k < info.nContacts; ++k)
                for (Vec2 p : {info.refContacts[k], info.incContacts[k]})
                    v.push_back(p[0]), v.push_back(p[1]);
            if (info.nContacts)
                v.push_back(info.normal[0]), v.push_back(info.normal[1]);
            contacts[{ids[c.colliders()[0]], ids[c.colliders()[1]]}] = v;
            touching = touching || info.nContacts > 0;
        }
        trace.push_back((std::uint32_t)contacts.size());
        for (auto& c : contacts)
        {
            trace.push_back(c.first.first);
            trace.push_back(c.first.second);
            for (float f : c.second)
                put(f);
        }
        jointed = jointed || !joints.empty();
    }

    Material material(const Op& op)
    {
        Material m{};
        m.bounciness.value = (float)op.x[4];
        m.friction.value   = (float)op.x[5];
        return m;
    }

    void note(Collider* c)
    {
        ids[c] = nextId++;
    }

    void apply(const Op& op)
    {
        if (op.kind != body && op.kind != step && op.kind != field && bodies.empty())
            return;
        std::size_t n = bodies.size();
        switch (op.kind)
        {
            case body:
            {
                if (n > 12)
                    return;
                Body* b = makeBody(world, op.verts, Vec2{(float)op.x[0], (float)op.x[1]}, op.x[2], op.x[3], material(op));
                bodies.push_back(b);
                colliders.emplace_back();
                for (const Collider& c : b->colliders())
                    colliders.back().push_back(const_cast<Collider*>(&c));
                note(colliders.back()[0]);
                break;
            }
            case addCollider:
            {
                Collider* c = bodies[op.i[0] % n]->addCollider(descriptor(op.verts, material(op)));
                colliders[op.i[0] % n].push_back(c);
                note(c);
                break;
            }
            case removeCollider:
            {
                auto& cs = colliders[op.i[0] % n];
                if (cs.size() < 2)
                    return;
                std::size_t k = op.i[1] % cs.size();
                bodies[op.i[0] % n]->removeCollider(cs[k]);
                cs.erase(cs.begin() + k);
                break;
            }
            case push:
            {
                Body* b = bodies[op.i[0] % n];
                if (op.i[1] < 4)
                {
                    b->setVelocity(Vec2{(float)op.x[0], (float)op.x[1]});
                    b->setAngularVelocity((float)op.x[2]);
                }
                else if (op.i[1] < 6)
                    b->applyImpulse(Vec2{(float)op.x[0], (float)op.x[1]}, Vec2{(float)op.x[2], (float)op.x[3]});
                else
                    b->applyForce(Vec2{(float)op.x[0], (float)op.x[1]}, 0.1f, Vec2{(float)op.x[2], (float)op.x[3]});
                break;
            }
            case joint:
            {
                if (n < 2 || joints.size() > 8)
                    return;
                Body *a = bodies[op.i[0] % n], *b = bodies[(op.i[0] + 1 + op.i[1] % (n - 1)) % n];
                if (a->isStructural() && b->isStructural())
                    return;
                bool   off = op.i[3] % 2;
                Bodies pair{a, b};
                Vec2   p = a->position() + Vec2{(float)op.x[0], (float)op.x[1]}, q = b->position() + Vec2{(float)op.x[2], (float)op.x[3]};
                switch (op.i[2] % 4)
                {
                    case 0: joints.push_back(world.makeConstraint<HingeConstraint>(pair, p, off)); break;
                    case 1: joints.push_back(world.makeConstraint<WeldConstraint>(pair, off)); break;
                    case 2:
                        if (norm(D2(p) - D2(q)) < 0.1)
                            return;
                        joints.push_back(world.makeConstraint<DistanceConstraint>(pair, std::array<Vec2, 2>{p, q}, off));
                        break;
                    default:
                        if (a->isStructural())
                            return;
                        auto* motor = world.makeConstraint<RotationMotor>(Bodies::singleBody(a), RotationMotor::Specs::fromTorque(3.f, 10.f));
                        motor->direction(Vector<float, 1>{(float)op.x[0]});
                        joints.push_back(motor);
                }
                break;
            }
            case field:
                if (fields.size() > 2)
                    return;
                if (op.i[0] < 4)
                    fields.push_back(world.makeForceField<Gravity>(Vec2{(float)op.x[0], (float)op.x[1]}));
                else
                    fields.push_back(world.makeForceField<LinearField>(
                        Vec2{(float)op.x[0], (float)op.x[1]}, ForceField::region(Vec2{(float)std::min(op.x[2], op.x[4]), (float)std::min(op.x[3], op.x[5])}, Vec2{(float)std::max(op.x[2], op.x[4]), (float)std::max(op.x[3], op.x[5])})
                    ));
                break;
            case killBody:
            {
                std::size_t i = op.i[0] % n;
                bodies[i]->kill();
                drop(i);
                break;
            }
            case killJoint:
                if (joints.empty())
                    return;
                joints[op.i[0] % joints.size()]->kill();
                joints.erase(joints.begin() + op.i[0] % joints.size());
                break;
            case killField:
                if (fields.empty())
                    return;
                fields[op.i[0] % fields.size()]->kill();
                fields.erase(fields.begin() + op.i[0] % fields.size());
                break;
            case settings:
            {
                World::Settings st{};
                st.nVelocityIterations = 1 + op.i[0];
                st.nPositionIterations = op.i[1];
                st.enableWarmstarting  = op.i[2] % 2;
                world.updateSettings(st);
                break;
            }
            case step:
                for (unsigned k = 0; k < op.i[0]; ++k)
                {
                    world.step((float)op.x[0]);
                    record();
                }
                break;
        }
    }
};

std::vector<std::uint32_t> play(World& w, const Script& script, bool* touching = nullptr, bool* jointed = nullptr)
{
    Sim sim{w};
    for (const Op& op : script)
        sim.apply(op);
    if (touching)
        *touching = sim.touching;
    if (jointed)
        *jointed = sim.jointed;
    return std::move(sim.trace);
}

void same(const std::vector<std::uint32_t>& a, const std::vector<std::uint32_t>& b, const char* how)
{
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        ++i;
    if (i == a.size() && i == b.size())
        return;
    float x = 0, y = 0;
    if (i < a.size())
        std::memcpy(&x, &a[i], 4);
    if (i < b.size())
        std::memcpy(&y, &b[i], 4);
    pbt::fail("the history of the world differs ", how, ": value ", i, " of ", a.size(), " is ", y, " instead of ", x);
}

void describe(Source& s, const Script& script)
{
    static const char* names[] = {"body", "addCollider", "removeCollider", "push", "joint", "field", "killBody", "killJoint", "killField", "settings", "step"};
    for (const Op& op : script)
    {
        std::ostringstream ss;
        ss << names[op.kind] << " " << op.i[0] << ' ' << op.i[1] << ' ' << op.i[2] << ' ' << op.i[3];
        for (double x : op.x)
            ss << ' ' << x;
        if (!op.verts.empty())
            ss << ' ' << str(op.verts);
        s.note(ss.str());
    }
}

struct Reference
{
    Script                     script;
    std::vector<std::uint32_t> trace;
};

Reference reference(Source& s)
{
    Reference r;
    r.script = makeScript(s, s.size(3, 40));
    describe(s, r.script);
    bool touching = false, jointed = false;
    fillByte = 0;
    padding  = 0;
    {
        World w{};
        r.trace = play(w, r.script, &touching, &jointed);
    }
    s.labelIf(touching, "contacts");
    s.labelIf(jointed, "joints");
    s.nontrivial(touching || jointed);
    return r;
}

// other addresses, other stale memory, other worlds in between
void memory(Source& s)
{
    Reference r     = reference(s);
    int       fills[] = {0xff, 0x7f, 0x01, 0x3f};
    fillByte        = fills[s.index(4)];
    padding         = 1 + (unsigned)s.integer(0, 1000);
    World        w{}, other{};
    Sim          sim{w}, decoy{other};
    Script       noise = s.boolean() ? makeScript(s, 20) : Script{};
    std::size_t  k     = 0;
    std::vector<std::unique_ptr<char[]>> hold;
    for (const Op& op : r.script)
    {
        for (int i = 0; i < 3; ++i)
            hold.push_back(std::make_unique<char[]>(16 + padding % 300));
        if (padding % 3 == 0)
            hold.erase(hold.begin() + padding % hold.size());
        sim.apply(op);
        if (!noise.empty())
            decoy.apply(noise[k++ % noise.size()]);
    }
    fillByte = 0;
    padding  = 0;
    s.labelIf(!noise.empty(), "another world");
    same(r.trace, sim.trace, "at other addresses");
}

// clear() leaves nothing behind
void cleared(Source& s)
{
    Reference r      = reference(s);
    Script    before = makeScript(s, s.size(3, 30));
    World     w{};
    play(w, before);
    w.clear();
    PBT_CHECK(w.bodies().begin() == w.bodies().end(), "a cleared world has bodies");
    PBT_CHECK(w.constraints().begin() == w.constraints().end(), "a cleared world has constraints");
    PBT_CHECK(w.contacts().begin() == w.contacts().end(), "a cleared world has contacts");
    PBT_CHECK(w.forceFields().begin() == w.forceFields().end(), "a cleared world has force fields");
    if (s.boolean())
        w.step(0.01f);
    w.updateSettings(World::Settings{});
    same(r.trace, play(w, r.script), "in a world that was cleared");
}

// looking does not change anything
void observed(Source& s)
{
    Reference r = reference(s);
    World     w{};
    Sim       sim{w};
    unsigned  salt = (unsigned)s.integer(0, 1000);
    bool      paused = s.boolean();
    float     sum = 0;
    for (const Op& op : r.script)
    {
        sim.apply(op);
        salt = salt * 1103515245u + 12345u;
        Vec2 p{(float)((salt >> 8) % 12) - 6, (float)((salt >> 12) % 12) - 6};
        int  n = 0;
        w.forEachAt(p, [&](Body*) { ++n; });
        w.forEachIn(BoundingBox{p, p + Vec2{3, 2}}, [&](Body*) { ++n; });
        for (Body* b : sim.bodies)
        {
            sum += b->mass() + b->inertia() + b->orientation() + (b->toWorldSpace() * Vec2{1, 1})[0] + (b->toLocalSpace() * Vec2{1, 1})[0] + (float)n;
            for (const Collider& c : b->colliders())
                sum += c.boundingBox().min()[0];
        }
        w.profiler().reset();
    }
    (void)paused;
    s.labelIf(std::isfinite(sum), "observed");
    same(r.trace, sim.trace, "when it is observed");
}

// worlds do not share anything, not even between threads
void threads(Source& s)
{
    Reference                  r = reference(s);
    std::vector<std::uint32_t> t[2];
    std::thread                th[2];
    for (int i = 0; i < 2; ++i)
        th[i] = std::thread{[&, i] {
            World w{};
            t[i] = play(w, r.script);
        }};
    for (auto& x : th)
        x.join();
    for (int i = 0; i < 2; ++i)
        same(r.trace, t[i], "in another thread");
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C26",
         "A generated script of up to 40 operations (bodies, colliders, pushes, joints, force fields, kills, settings, steps) "
         "is played in a fresh world, then again: memory - with other addresses, other contents of fresh memory and steps of "
         "an unrelated world in between; cleared - in a world that lived through another script and was cleared; observed - "
         "with queries in between; threads - in two threads at once. All positions, velocities and contacts of all steps are "
         "compared bit by bit. Non-trivial: bodies touched or were joined.",
         {},
         {{"memory", memory, 6000, 200000, 20}, {"cleared", cleared, 4000, 100000, 20}, {"observed", observed, 4000, 100000, 20}, {"threads", threads, 3000, 60000, 20}}}
    );
}
