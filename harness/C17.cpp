// C17: queries of the world
// SOURCES: math physics
// FLAGS: san cov -DSIMU_VERIF_SYSTEM_ALLOCATOR
#include "world_common.hpp"

namespace
{

struct Tagged : Body
{
    Tagged(const BodyDescriptor& d, int i, std::set<int>& gone) : Body{d}, id{i}, gone_{gone} {}
    ~Tagged() override { gone_.insert(id); }
    int            id;
    std::set<int>& gone_;
};

struct Machine
{
    Source&              s;
    std::set<int>        gone{};
    World                world{};
    std::vector<Tagged*> bodies{};
    std::map<Tagged*, int> ids{};
    std::set<int>        killed{}, removed{};
    std::map<const Collider*, std::vector<Vec2>> geometry{};
    int                  next = 0;
    double               spread;
    bool                 turned = false, hit = false, missed = false, cleared = false, twice = false;

    explicit Machine(Source& src) : s{src} { spread = s.pick({5.0, 20.0, 60.0}); }

    void make()
    {
        BodyDescriptor d{};
        d.position    = vec(s, spread);
        d.orientation = s.boolean() ? 0.f : (float)s.real(-4, 4);
        d.dominance   = s.chance(1, 5) ? 0.f : 1.f;
        Tagged* b     = world.makeBody<Tagged>(d, next++, gone);
        bodies.push_back(b);
        ids[b] = b->id;
        long n = s.weighted({1, 5, 3, 1});
        for (long i = 0; i < n; ++i)
        {
            auto v = localPolygon(s, 3);
            geometry[b->addCollider(descriptor(v))] = v;
        }
        b->setVelocity(vec(s, 5));
        b->setAngularVelocity((float)s.real(-3, 3));
        s.note("body ", b->id, " at ", d.position, " with ", n, " colliders");
    }

    Tagged* any() { return bodies.empty() ? nullptr : bodies[s.index(bodies.size())]; }

    static bool overlap(const BoundingBox& a, const BoundingBox& b)
    {
        return a.min()[0] <= b.max()[0] && b.min()[0] <= a.max()[0] && a.min()[1] <= b.max()[1] && b.min()[1] <= a.max()[1];
    }

    void compare(const std::multiset<int>& got, const BoundingBox& q, const std::string& what)
    {
        std::multiset<int> want;
        for (Tagged* b : bodies)
            for (const Collider& c : b->colliders())
                if (overlap(c.boundingBox(), q))
                    want.insert(b->id);
        std::ostringstream ss;
        for (int i : got)
            ss << i << ' ';
        ss << "instead of ";
        for (int i : want)
            ss << i << ' ';
        PBT_CHECK(got == want, what, " visits the bodies ", ss.str());
        hit    = hit || !want.empty();
        missed = missed || want.size() < bodies.size();
        twice  = twice || std::set<int>(want.begin(), want.end()).size() < want.size();
    }

    void query()
    {
        Vec2 p = vec(s, spread + 3);
        if (!bodies.empty() && s.boolean())
        {
            // corners and insides of what exists
            Tagged* b = any();
            for (const Collider& c : b->colliders())
            {
                Vec2 lo = c.boundingBox().min(), hi = c.boundingBox().max();
                p       = s.boolean() ? (s.boolean() ? lo : hi) : s.boolean() ? Vec2{lo[0], hi[1]} : (lo + hi) / 2.f;
                if (s.chance(1, 3))
                    p = Vec2{std::nextafter(p[0], s.boolean() ? 1e9f : -1e9f), p[1]};
                if (s.boolean())
                    break;
            }
        }
        if (s.boolean())
        {
            std::multiset<int> got;
            world.forEachAt(p, [&](Body* b) { got.insert(static_cast<Tagged*>(b)->id); });
            compare(got, BoundingBox{p, p}, pbt::cat("forEachAt ", p));
        }
        else
        {
            Vec2        e = s.chance(1, 6) ? Vec2{1e5f, 1e5f} : Vec2{(float)s.real(0, 30), (float)s.real(0, 30)};
            BoundingBox q{p, p + e};
            std::multiset<int> got;
            world.forEachIn(q, [&](Body* b) { got.insert(static_cast<Tagged*>(b)->id); });
            compare(got, q, pbt::cat("forEachIn ", p, " to ", p + e));
        }
    }

    void step()
    {
        float dt = s.pick({0.01f, 0.1f, 0.f, -0.1f, 0.5f});
        s.note("step ", dt);
        for (Tagged* b : bodies)
            turned = turned || b->angularVelocity() != 0;
        world.step(dt);
        std::erase_if(bodies, [&](Tagged* b) {
            if (gone.count(ids[b]))
            {
                removed.insert(ids[b]);
                return true;
            }
            return false;
        });
        PBT_CHECK(gone == killed || std::includes(gone.begin(), gone.end(), killed.begin(), killed.end()), "a dead body is not removed");
        PBT_CHECK(std::includes(killed.begin(), killed.end(), gone.begin(), gone.end()), "a living body is removed");
    }

    void views()
    {
        std::vector<int> got, want;
        for (Body& b : world.bodies())
            got.push_back(static_cast<Tagged&>(b).id);
        for (Tagged* b : bodies)
            want.push_back(b->id);
        PBT_CHECK(got == want, "bodies() gives ", got.size(), " bodies instead of ", want.size());
        const World& cw = world;
        std::size_t  n  = 0;
        for (const Body& b : cw.bodies())
            n += b.colliders().begin() == b.colliders().end() ? 1 : 1;
        PBT_CHECK(n == want.size(), "const bodies()");

        // the bounds of colliders are where the body is
        for (Tagged* b : bodies)
        {
            std::vector<RefMass> parts;
            for (const Collider& c : b->colliders())
                parts.push_back(refMass(geometry.at(&c), 1));
            if (parts.empty())
                continue;
            D2     lc = combine(parts).c, pos = D2(b->position());
            double co = std::cos((double)b->orientation()), si = std::sin((double)b->orientation());
            for (const Collider& c : b->colliders())
            {
                D2 lo{1e30, 1e30}, hi{-1e30, -1e30};
                for (Vec2 v : geometry.at(&c))
                {
                    D2 p = D2(v) - lc;
                    p    = D2{co * p.x - si * p.y, si * p.x + co * p.y} + lc + pos;
                    lo   = D2{std::min(lo.x, p.x), std::min(lo.y, p.y)};
                    hi   = D2{std::max(hi.x, p.x), std::max(hi.y, p.y)};
                }
                double tol = 1e-4 * (1 + std::abs(pos.x) + std::abs(pos.y));
                Vec2   gl = c.boundingBox().min(), gh = c.boundingBox().max();
                PBT_CHECK(close(gl[0], lo.x, tol) && close(gl[1], lo.y, tol) && close(gh[0], hi.x, tol) && close(gh[1], hi.y, tol),
                          "a collider of body ", b->id, " spans ", gl, " to ", gh, " instead of ", Vec2{(float)lo.x, (float)lo.y}, " to ",
                          Vec2{(float)hi.x, (float)hi.y});
            }
        }
    }

    void run()
    {
        long n = s.size(3, 40);
        for (long i = 0; i < n; ++i)
        {
            switch (s.weighted({6, 5, 3, 3, 2, 1}))
            {
                case 0:
                    if (bodies.size() < 14)
                        make();
                    break;
                case 1: step(); break;
                case 2: // new collider
                    if (Tagged* b = any())
                    {
                        auto v = localPolygon(s, 3);
                        s.note("add to ", b->id, " ", str(v));
                        if (std::distance(b->colliders().begin(), b->colliders().end()) < 5)
                            geometry[b->addCollider(descriptor(v))] = v;
                    }
                    break;
                case 3: // remove a collider
                    if (Tagged* b = any())
                    {
                        std::vector<Collider*> cs;
                        for (const Collider& c : b->colliders())
                            cs.push_back(const_cast<Collider*>(&c));
                        if (!cs.empty())
                        {
                            std::size_t k = s.index(cs.size());
                            s.note("remove collider ", k, " of ", b->id);
                            b->removeCollider(cs[k]);
                        }
                    }
                    break;
                case 4:
                    if (Tagged* b = any())
                    {
                        s.note("kill ", b->id);
                        b->kill();
                        killed.insert(b->id);
                    }
                    break;
                default:
                    if (s.chance(1, 3))
                    {
                        s.note("clear");
                        for (Tagged* b : bodies)
                        {
                            killed.insert(b->id);
                            removed.insert(b->id);
                        }
                        world.clear();
                        bodies.clear();
                        PBT_CHECK(gone == killed, "clear keeps bodies");
                        cleared = true;
                    }
            }
            views();
            query();
            query();
        }
        s.labelIf(turned, "turning");
        s.labelIf(twice, "several colliders of one body");
        s.labelIf(cleared, "cleared");
        s.nontrivial(hit && missed);
    }
};

void history(Source& s) { Machine{s}.run(); }

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C17",
         "Histories of up to 40 operations on a world of up to 14 bodies (new bodies with 0 to 3 colliders, steps, added "
         "and removed colliders, kills, clear), with two queries after each (points and boxes at random, at corners of "
         "colliders and next to them). Non-trivial: queries that find something, and that leave something out.",
         {},
         {{"history", history, 20000, 500000, 10}}}
    );
}
