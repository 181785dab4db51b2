// C23: contacts
// SOURCES: math physics
// FLAGS: ubsan cov -DSIMU_VERIF_SYSTEM_ALLOCATOR
#include "joint_common.hpp"

namespace
{

double support(const std::vector<Vec2>& v, D2 u)
{
    double m = -1e300;
    for (Vec2 p : v)
        m = std::max(m, dot(D2(p), u));
    return m;
}

std::vector<D2> worldOf(const Body* b)
{
    std::vector<D2> r;
    for (const Collider& c : b->colliders())
        for (Vec2 v : c)
            r.push_back(D2(v));
    return r;
}

// of two convex shapes, negative when they do not overlap
double overlap(const std::vector<D2>& a, const std::vector<D2>& b)
{
    double best = 1e300;
    for (int side = 0; side < 2; ++side)
    {
        const auto& x = side ? b : a;
        for (std::size_t i = 0; i < x.size(); ++i)
        {
            D2 e = x[(i + 1) % x.size()] - x[i];
            D2 n = D2{e.y, -e.x} / norm(e);
            double maxA = -1e300, minA = 1e300, maxB = -1e300, minB = 1e300;
            for (D2 p : a)
                maxA = std::max(maxA, dot(n, p)), minA = std::min(minA, dot(n, p));
            for (D2 p : b)
                maxB = std::max(maxB, dot(n, p)), minB = std::min(minB, dot(n, p));
            best = std::min({best, maxA - minB, maxB - minA});
        }
    }
    return best;
}

CombinableProperty property(Source& s, double max, bool modes)
{
    CombinableProperty p{(float)(s.chance(1, 4) ? max : s.real(0, max)), CombinableProperty::average};
    if (modes)
        p.mode = s.pick({CombinableProperty::average, CombinableProperty::minimum, CombinableProperty::multiply, CombinableProperty::maximum});
    return p;
}

double combined(CombinableProperty a, CombinableProperty b)
{
    double x = a.value, y = b.value;
    switch (std::max(a.mode, b.mode))
    {
        case CombinableProperty::average: return (x + y) / 2;
        case CombinableProperty::minimum: return std::min(x, y);
        case CombinableProperty::multiply: return x * y;
        default: return std::max(x, y);
    }
}

struct Pair
{
    World               world{};
    std::array<Body*, 2> b{};
    double              d[2]{};
    double              e = 0, mu = 0;
    D6                  W{};
    D2                  g{};

    void make(Source& s, bool rough)
    {
        Material m[2]{};
        bool     bouncy = s.boolean();
        int      fixed  = (int)s.weighted({2, 1, 1});
        std::vector<Vec2> shapes[2];
        bool modes = s.chance(1, 3);
        for (int i = 0; i < 2; ++i)
        {
            m[i].density    = s.pick({1.f, 0.3f, 4.f});
            m[i].bounciness = CombinableProperty{0.f, CombinableProperty::average};
            m[i].friction   = CombinableProperty{0.f, CombinableProperty::average};
            if (bouncy)
                m[i].bounciness = property(s, 1, modes);
            if (rough)
                m[i].friction = property(s, 1, modes);
            shapes[i] = s.boolean() ? boxVerts(s.pick({1.0, 2.0, 4.0}), s.pick({1.0, 0.5})) : convexAround(s, 0.6, 2);
            d[i]      = fixed == i + 1 ? 0 : s.pick({1.0, 1.0, 0.5, 3.0});
        }
        e  = combined(m[0].bounciness, m[1].bounciness);
        mu = combined(m[0].friction, m[1].friction);
        double th[2] = {s.boolean() ? 0 : s.real(-3, 3), s.boolean() ? 0 : s.real(-3, 3)};
        b[0]         = makeBody(world, shapes[0], vec(s, 3), th[0], d[0], m[0]);
        // the second one touches it in some direction
        double dir = s.boolean() ? (double)s.integer(0, 3) * 1.57079632679 : s.real(-3.14, 3.14);
        D2     u{std::cos(dir), std::sin(dir)};
        double depth = s.pick({0.02, 0.05, 0.1, 0.0, -0.02});
        std::vector<Vec2> turned;
        for (Vec2 v : shapes[1])
            turned.push_back(toVec(rot(D2(v), th[1])));
        auto   w0   = worldOf(b[0]);
        double far0 = -1e300;
        for (D2 p : w0)
            far0 = std::max(far0, dot(p, u));
        D2 at = u * (far0 - depth + support(turned, u * -1.0));
        D2 side{-u.y, u.x};
        at += side * (dot(D2(b[0]->centroid()), side) + (s.boolean() ? 0 : s.real(-1.5, 1.5)));
        // bodies turn about their centroid
        D2 lc = refMass(shapes[1], 1).c;
        b[1]  = makeBody(world, shapes[1], toVec(at + rot(lc, th[1]) - lc), th[1], d[1], m[1]);
        for (int i = 0; i < 2; ++i)
        {
            W[3 * i] = W[3 * i + 1] = d[i] == 0 ? 0 : d[i] / b[i]->mass();
            W[3 * i + 2]            = d[i] == 0 ? 0 : d[i] / b[i]->inertia();
        }
        if (s.chance(1, 3))
        {
            g = D2(vec(s, 10));
            world.makeForceField<Gravity>(toVec(g));
        }
        s.note("e ", e, " mu ", mu, " gravity ", g, " mass ", b[0]->mass(), " ", b[1]->mass(), " inertia ", b[0]->inertia(), " ", b[1]->inertia(), " dominance ", d[0], " ", d[1]);
        for (int i = 0; i < 2; ++i)
            s.note("body ", i, " ", str(shapes[i]), " at ", b[i]->position(), " orientation ", th[i]);
        // the contact is known after a step
        world.step(1e-6f);
        for (int i = 0; i < 2; ++i)
        {
            b[i]->setVelocity(Vec2{});
            b[i]->setAngularVelocity(0);
        }
    }

    void push(Source& s)
    {
        // mostly against each other
        D2 u = D2(b[1]->centroid()) - D2(b[0]->centroid());
        u    = u / (norm(u) + 1e-9);
        for (int i = 0; i < 2; ++i)
        {
            if (d[i] == 0 && !s.chance(1, 3))
                continue;
            b[i]->setVelocity(vec(s, 2) + toVec(u * (s.real(0, 4) * (i ? -1 : 1))));
            b[i]->setAngularVelocity(s.boolean() ? 0.f : s.f(-2, 2));
        }
        s.note("velocities ", b[0]->velocity(), " ", b[0]->angularVelocity(), " ", b[1]->velocity(), " ", b[1]->angularVelocity());
    }

    ContactConstraint* contact()
    {
        ContactConstraint* c = nullptr;
        for (ContactConstraint& x : world.contacts())
            if (!x.isDead())
                c = &x;
        return c;
    }
};

struct Frame
{
    int             n = 0;
    std::vector<D6> Jn, Jt;
    D2              normal, tangent;
};

// in the order of Pair::b
Frame frameOf(Pair& p, ContactConstraint* c, const Pose& p0, const Pose& p1)
{
    Frame f;
    auto  i = c->contactInfo();
    f.n     = (int)i.nContacts;
    if (f.n == 0)
        return f;
    bool swapped = c->bodies()[0] != p.b[0];
    D2   n       = D2(i.normal);
    D2   c0 = (swapped ? p1 : p0).centroid(), c1 = (swapped ? p0 : p1).centroid();
    f.normal  = swapped ? n * -1.0 : n;
    f.tangent = {-f.normal.y, f.normal.x};
    for (int k = 0; k < f.n; ++k)
    {
        D2 ri = D2(i.incContacts[k]) - c0, rr = D2(i.refContacts[k]) - c1;
        for (D2 u : {n, D2{-n.y, n.x}})
        {
            D6 row{u.x, u.y, cross(ri, u), -u.x, -u.y, -cross(rr, u)};
            if (swapped)
            {
                std::swap(row[0], row[3]), std::swap(row[1], row[4]), std::swap(row[2], row[5]);
                // tangent for the pair is the opposite
            }
            (u.x == n.x && u.y == n.y ? f.Jn : f.Jt).push_back(row);
        }
    }
    return f;
}

// v + W Jt l, l >= 0, J v + bounce >= 0, complementary
D6 lcp(const Frame& f, const D6& W, const D6& v, const std::vector<double>& bounce)
{
    std::vector<double> b;
    for (int k = 0; k < f.n; ++k)
        b.push_back(-dot6(f.Jn[k], v) - bounce[k]);
    auto K = [&](int i, int j) {
        double r = 0;
        for (int k = 0; k < 6; ++k)
            r += f.Jn[i][k] * W[k] * f.Jn[j][k];
        return r;
    };
    double best = 1e300;
    D6     res  = v;
    for (int set = 0; set < (1 << f.n); ++set)
    {
        double l[2] = {0, 0};
        if (set == 3)
        {
            double det = K(0, 0) * K(1, 1) - K(0, 1) * K(1, 0);
            if (std::abs(det) < 1e-7 * K(0, 0) * K(1, 1))
                continue;
            l[0] = (b[0] * K(1, 1) - K(0, 1) * b[1]) / det;
            l[1] = (K(0, 0) * b[1] - b[0] * K(1, 0)) / det;
        }
        else
            for (int k = 0; k < f.n; ++k)
                if (set & (1 << k))
                    l[k] = b[k] / K(k, k);
        double err = 0;
        for (int k = 0; k < f.n; ++k)
        {
            double w = -b[k];
            for (int j = 0; j < f.n; ++j)
                w += K(k, j) * l[j];
            err = std::max({err, -w, -l[k] * K(k, k)});
        }
        if (err < best)
        {
            best = err;
            res  = v;
            for (int k = 0; k < f.n; ++k)
                for (int i = 0; i < 6; ++i)
                    res[i] += W[i] * f.Jn[k][i] * l[k];
        }
    }
    return res;
}

bool bounces(const Frame& f, const D6& v, double e, std::vector<double>& bounce)
{
    for (int k = 0; k < f.n; ++k)
    {
        double u = dot6(f.Jn[k], v);
        if (std::abs(u + 1) < 1e-3 && e > 0)
            return false; // on the threshold
        bounce.push_back(u > -1 ? 0 : e * u);
    }
    return true;
}

// 0 when both contacts do the same thing, 1 when they are independent
double apart(const Frame& f, const D6& W)
{
    double a = 0, b = 0, c = 0;
    for (int k = 0; k < 6; ++k)
    {
        a += f.Jn[0][k] * W[k] * f.Jn[0][k];
        b += f.Jn[1][k] * W[k] * f.Jn[1][k];
        c += f.Jn[0][k] * W[k] * f.Jn[1][k];
    }
    return 1 - c * c / (a * b);
}

// friction that needs about as much normal impulse as it lets it have
bool wedged(const Frame& f, const D6& W, double mu)
{
    for (int i = 0; i < f.n; ++i)
    {
        double nn = 0, nt = 0;
        for (int j = 0; j < f.n; ++j)
        {
            double x = 0;
            for (int k = 0; k < 6; ++k)
            {
                x += f.Jn[i][k] * W[k] * f.Jt[j][k];
                nn += i == j ? f.Jn[i][k] * W[k] * f.Jn[i][k] : 0;
            }
            nt += std::abs(x);
        }
        if (mu * nt > 0.7 * nn)
            return true;
    }
    return false;
}

void impact(Source& s)
{
    Pair p;
    p.make(s, false);
    bool   stopped = false, bounced = false, two = false, one = false;
    double previous = 0;
    for (long step = 0, steps = s.size(1, 12); step < steps; ++step)
    {
        World::Settings st{};
        st.nVelocityIterations = (Uint32)s.integer(1, 8);
        st.nPositionIterations = 0;
        st.enableWarmstarting  = s.boolean();
        p.world.updateSettings(st);
        float dt = s.pick({0.01f, 0.02f, 0.001f});
        if (step == 0 || s.chance(1, 3))
            p.push(s);
        ContactConstraint* c = p.contact();
        Pose               p0{p.b[0]}, p1{p.b[1]};
        D6                 v0 = velocities(p.b[0], p.b[1]);
        for (int k = 0; k < 2; ++k)
            if (p.d[k] != 0)
            {
                v0[3 * k] += p.g.x * dt;
                v0[3 * k + 1] += p.g.y * dt;
            }
        p.world.step(dt);
        D6    v    = velocities(p.b[0], p.b[1]);
        D6    want = v0;
        Frame f;
        if (c)
            f = frameOf(p, c, p0, p1);
        if (f.n)
        {
            std::vector<double> bounce;
            if (!bounces(f, v0, p.e, bounce))
                return;
            want    = lcp(f, p.W, v0, bounce);
            two     = two || f.n == 2;
            one     = one || f.n == 1;
            bounced = bounced || std::abs(bounce[0]) > 0.1;
        }
        double scale = previous;
        previous     = 0;
        for (int k = 0; k < 6; ++k)
        {
            scale    = std::max({scale, std::abs(v0[k]), std::abs(want[k])});
            previous = std::max(previous, std::abs(v[k] - v0[k]));
        }
        stopped = stopped || previous > 0.1;
        // contacts that do the same thing are solved as one
        double tol = f.n == 2 && apart(f, p.W) < 1e-3 ? 0.03 : 2e-3;
        for (int k = 0; k < 6; ++k)
            PBT_CHECK(std::abs(v[k] - want[k]) <= tol * (scale + 0.1), "step ", step, ": component ", k, " of the velocities is ", v[k], " instead of ", want[k], " (before: ", v0[k], ", ", f.n,
                      " contacts along ", f.normal, ")");
        for (int k = 0; k < 2; ++k)
        {
            D2 to = (k ? p1 : p0).centroid() + D2{v[3 * k], v[3 * k + 1]} * dt;
            PBT_CHECK(norm(D2(p.b[k]->centroid()) - to) <= 1e-5 * (1 + norm(to)), "step ", step, ": body ", k, " is at ", p.b[k]->centroid(), " instead of ", to);
        }
    }
    s.labelIf(bounced, "bounces");
    s.labelIf(two, "two contacts");
    s.labelIf(one, "one contact");
    s.nontrivial(stopped);
}

void friction(Source& s)
{
    Pair p;
    p.make(s, true);
    bool   acted = false, slides = false, sticks = false;
    double previous = 0;
    for (long step = 0, steps = s.size(1, 8); step < steps; ++step)
    {
        World::Settings st{};
        st.nVelocityIterations = 200;
        st.nPositionIterations = 0;
        st.enableWarmstarting  = s.boolean();
        p.world.updateSettings(st);
        float dt = s.pick({0.01f, 0.02f, 0.001f});
        if (step == 0 || s.chance(1, 3))
            p.push(s);
        ContactConstraint* c = p.contact();
        Pose               p0{p.b[0]}, p1{p.b[1]};
        D6                 v0 = velocities(p.b[0], p.b[1]);
        for (int k = 0; k < 2; ++k)
            if (p.d[k] != 0)
            {
                v0[3 * k] += p.g.x * dt;
                v0[3 * k + 1] += p.g.y * dt;
            }
        p.world.step(dt);
        if (!c)
            continue;
        Frame f = frameOf(p, c, p0, p1);
        if (!f.n)
            continue;
        std::vector<double> bounce;
        if (!bounces(f, v0, p.e, bounce))
            return;
        // impulses of contacts that do almost the same thing alternate between iterations
        if ((f.n == 2 && apart(f, p.W) < 0.3) || wedged(f, p.W, p.mu))
            return;
        D6     v     = velocities(p.b[0], p.b[1]);
        double scale = previous + 0.1;
        previous     = 0;
        for (int k = 0; k < 6; ++k)
        {
            scale    = std::max({scale, std::abs(v0[k]), std::abs(v[k])});
            previous = std::max(previous, std::abs(v[k] - v0[k]));
        }
        // impulse on the first body
        int    of = p.d[0] != 0 ? 0 : 1;
        double m  = 1 / p.W[3 * of];
        D2     P  = D2{v[3 * of] - v0[3 * of], v[3 * of + 1] - v0[3 * of + 1]} * (of ? -m : m);
        double Pn = dot(P, f.normal), Pt = dot(P, f.tangent);
        double tol = 3e-3 * scale * m;
        PBT_CHECK(Pn >= -tol, "step ", step, ": the contact pulls with ", Pn);
        PBT_CHECK(std::abs(Pt) <= p.mu * Pn + tol, "step ", step, ": the friction ", Pt, " is more than ", p.mu, " times ", Pn);
        bool right = true, left = true, touches = false;
        for (int k = 0; k < f.n; ++k)
        {
            double un = dot6(f.Jn[k], v) + bounce[k], ut = dot6(f.Jt[k], v);
            PBT_CHECK(un >= -3e-3 * scale, "step ", step, ": contact ", k, " still approaches at ", un, " (before: ", dot6(f.Jn[k], v0), ")");
            touches = touches || un <= 3e-3 * scale;
            right   = right && ut > 0.02 * scale;
            left    = left && ut < -0.02 * scale;
        }
        PBT_CHECK(touches || std::abs(Pn) <= tol, "step ", step, ": contacts that part push with ", Pn);
        if (Pn > 0.1 * scale * m)
        {
            acted = acted || p.mu > 0.05;
            // the tangent of the first body
            if (right || left)
            {
                slides = true;
                PBT_CHECK(std::abs(Pt - (right ? -1 : 1) * p.mu * Pn) <= tol + 0.01 * Pn, "step ", step, ": the friction is ", Pt, " while sliding ", right ? "" : "backwards ", "with normal impulse ", Pn,
                          " and coefficient ", p.mu);
            }
            else if (std::abs(Pt) < p.mu * Pn * 0.9 - tol)
                sticks = true;
        }
        if (f.n == 1)
        {
            D2 r0 = D2{}, r1 = D2{};
            auto i       = c->contactInfo();
            bool swapped = c->bodies()[0] != p.b[0];
            r0           = D2(swapped ? i.refContacts[0] : i.incContacts[0]) - p0.centroid();
            r1           = D2(swapped ? i.incContacts[0] : i.refContacts[0]) - p1.centroid();
            double w0 = v0[2] + p.W[2] * cross(r0, P), w1 = v0[5] - p.W[5] * cross(r1, P);
            PBT_CHECK(std::abs(w0 - v[2]) <= 3e-3 * scale && std::abs(w1 - v[5]) <= 3e-3 * scale, "step ", step, ": the impulse ", P, " turns the bodies at ", v[2], " and ", v[5], " instead of ", w0, " and ",
                      w1);
        }
    }
    s.labelIf(slides, "slides");
    s.labelIf(sticks, "sticks");
    s.nontrivial(acted);
}

// bodies that overlap are pushed apart, not further
void separate(Source& s)
{
    World    world{};
    double   d[2] = {1, 1};
    int      fixed = (int)s.weighted({2, 1, 1});
    Material m{};
    double   pen = 0.005;
    if (s.chance(1, 3))
        m.penetration.value = (float)(pen = s.pick({0.02, 0.05}));
    std::vector<Vec2> shapes[2];
    for (int i = 0; i < 2; ++i)
    {
        d[i]      = fixed == i + 1 ? 0 : s.pick({1.0, 1.0, 0.5, 3.0});
        shapes[i] = s.boolean() ? boxVerts(s.pick({2.0, 4.0}), s.pick({1.0, 2.0})) : convexAround(s, 1.2, 2);
    }
    Body*  a   = makeBody(world, shapes[0], vec(s, 3), s.boolean() ? 0 : s.real(-3, 3), d[0], m);
    double dir = s.real(-3.14, 3.14), reach = s.real(0.5, 2.5);
    Body*  b   = makeBody(world, shapes[1], a->centroid() + Vec2{(float)(reach * std::cos(dir)), (float)(reach * std::sin(dir))}, s.boolean() ? 0 : s.real(-3, 3), d[1], m);
    double before = overlap(worldOf(a), worldOf(b));
    if (before < 0.01 || before > 1)
        throw pbt::Discard{};
    s.note("overlap ", before, " dominance ", d[0], " ", d[1], " penetration ", pen);
    s.note(str(shapes[0]), " at ", a->position(), " turned ", a->orientation());
    s.note(str(shapes[1]), " at ", b->position(), " turned ", b->orientation());
    World::Settings st{};
    st.nPositionIterations = (Uint32)s.integer(1, 4);
    world.updateSettings(st);
    double wa = d[0] == 0 ? 0 : d[0] / a->mass(), wb = d[1] == 0 ? 0 : d[1] / b->mass();
    D2     com = D2(a->centroid()) * wb + D2(b->centroid()) * wa;
    D2     at[2] = {D2(a->centroid()), D2(b->centroid())};
    double last  = before;
    for (int i = 0; i < 150; ++i)
    {
        world.step(0.01f);
        last = overlap(worldOf(a), worldOf(b));
        PBT_CHECK(last >= -0.01, "step ", i, ": the bodies are ", -last, " apart");
    }
    PBT_CHECK(last <= 4 * pen + 0.02, "the bodies still overlap by ", last, " after 150 steps (", before, " before)");
    PBT_CHECK(norm(D2(a->velocity())) < 1e-3 && norm(D2(b->velocity())) < 1e-3, "the bodies are thrown at ", a->velocity(), " and ", b->velocity());
    D2 now = D2(a->centroid()) * wb + D2(b->centroid()) * wa;
    if (fixed == 0)
        PBT_CHECK(norm(now - com) <= 1e-3 * (wa + wb), "the bodies moved together by ", (now - com) / (wa + wb));
    else
        PBT_CHECK(norm(D2((fixed == 1 ? a : b)->centroid()) - at[fixed - 1]) == 0, "the structural body was moved");
    s.nontrivial(before > 3 * pen + 0.05);
}

// things on the floor
void rest(Source& s)
{
    World  world{};
    double g = s.pick({10.0, 5.0, 20.0});
    world.makeForceField<Gravity>(Vec2{0, (float)-g});
    Material m{};
    m.friction.value   = (float)s.real(0.3, 1);
    m.bounciness.value = s.boolean() ? 0 : (float)s.real(0, 0.4);
    Body*  floor = makeBody(world, boxVerts(100, 2), Vec2{0, -1}, 0, 0, m);
    bool   stack = s.boolean();
    double drop  = s.boolean() ? 0 : s.real(0, 1);
    std::vector<Body*> bodies;
    std::vector<double> heights;
    double y = 0, mass = 0;
    long   n = stack ? s.integer(1, 3) : 1;
    double dt = s.pick({0.01, 1. / 60, 0.005});
    s.note("friction ", m.friction.value, " bounciness ", m.bounciness.value, " gravity ", g, " dropped from ", drop, " dt ", dt);
    for (long i = 0; i < n; ++i)
    {
        // tall or top-heavy stacks sway
        m.density = n == 3 ? 1 : s.pick({1.f, 0.5f, 2.f});
        if (stack)
        {
            double h = s.pick({1.0, 0.6}), w = s.real(n == 3 ? 1.5 : 1, 2.5);
            y += drop;
            bodies.push_back(makeBody(world, boxVerts(w, h), Vec2{0, (float)(y + h / 2)}, 0, 1, m));
            y += h;
            s.note("box ", w, " x ", h, " density ", m.density);
        }
        else
        {
            auto   v  = convexAround(s, 0.6, 1.5);
            double th = s.real(-3, 3);
            D2     c = refMass(v, 1).c;
            double low = 1e9;
            for (Vec2 p : v)
                low = std::min(low, (c + rot(D2(p) - c, th)).y);
            bodies.push_back(makeBody(world, v, Vec2{0, (float)(drop - low)}, th, 1, m));
            s.note(str(v), " turned ", th);
        }
        mass += bodies.back()->mass();
    }
    double top = 0, energy0 = 0;
    for (Body* b : bodies)
    {
        heights.push_back(b->centroid()[1]);
        top = std::max(top, (double)b->centroid()[1]);
        energy0 += b->mass() * g * b->centroid()[1];
    }
    // shapes may roll for a while
    int steps = (int)((stack ? 4 : 15) / dt), quiet = 0;
    for (int i = 0; i < steps && quiet < 1 / dt; ++i)
    {
        world.step((float)dt);
        double energy = 0, fastest = 0;
        for (Body* b : bodies)
        {
            D2 v    = D2(b->velocity());
            fastest = std::max({fastest, norm(v), (double)std::abs(b->angularVelocity())});
            energy += b->mass() * (dot(v, v) / 2 + g * b->centroid()[1]) + b->inertia() * b->angularVelocity() * b->angularVelocity() / 2;
        }
        quiet = !stack && fastest < 0.05 ? quiet + 1 : 0;
        PBT_CHECK(energy <= energy0 + mass * g * 0.1 + 0.02 * energy0, "step ", i, ": the energy grew from ", energy0, " to ", energy);
    }
    for (std::size_t i = 0; i < bodies.size(); ++i)
    {
        Body*  b     = bodies[i];
        double speed = norm(D2(b->velocity()));
        PBT_CHECK(speed < 0.1 && std::abs(b->angularVelocity()) < 0.1, "body ", i, " still moves at ", b->velocity(), " ", b->angularVelocity());
        double sink = overlap(worldOf(b), worldOf(i == 0 ? floor : bodies[i - 1]));
        PBT_CHECK(sink <= 0.03 && sink >= -0.01, "body ", i, " is ", sink, " inside of what is below");
        if (stack)
        {
            PBT_CHECK(std::abs(b->centroid()[0]) < 0.1 && std::abs(b->orientation()) < 0.05, "body ", i, " left the stack, it is at ", b->centroid(), " turned ", b->orientation());
        }
    }
    s.labelIf(stack, "stack");
    s.nontrivial(!stack || n > 1);
}

// a box on a slope slides when the slope is steeper than its friction
void slope(Source& s)
{
    World  world{};
    double g = s.pick({10.0, 5.0, 20.0});
    world.makeForceField<Gravity>(Vec2{0, (float)-g});
    double   th = s.real(-0.6, 0.6);
    Material m{};
    Material f{};
    double   mu = s.real(0, 1);
    m.friction.value = f.friction.value = (float)mu;
    if (s.boolean())
    {
        // the average
        m.friction.value = (float)(mu * s.real(0.5, 1));
        f.friction.value = (float)(2 * mu - m.friction.value);
    }
    m.density = s.pick({1.f, 0.5f, 3.f});
    Body*  floor = makeBody(world, boxVerts(200, 2), Vec2{}, th, 0, f);
    double h     = s.pick({0.6, 1.0}), w = 2 * h * s.real(1, 2);
    double along = s.real(-5, 5);
    D2     down{std::cos(th), std::sin(th)}, up{-std::sin(th), std::cos(th)};
    if (th > 0)
        down = down * -1.0;
    Body* b = makeBody(world, boxVerts(w, h), toVec(down * along + up * (1 + h / 2 - 0.01)), th, s.pick({1.0, 2.0}), m);
    (void)floor;
    double dt    = s.pick({0.01, 0.005});
    double accel = g * (std::sin(std::abs(th)) - mu * std::cos(th));
    s.note("angle ", th, " friction ", mu, " gravity ", g, " box ", w, " x ", h, " dt ", dt, " acceleration ", accel);
    // settle
    for (int i = 0; i < 20; ++i)
        world.step((float)dt);
    D2     p0 = D2(b->centroid());
    double v0 = dot(D2(b->velocity()), down);
    double t  = 0.8;
    int    n  = (int)std::lround(t / dt);
    for (int i = 0; i < n; ++i)
        world.step((float)dt);
    t           = n * dt;
    double x    = dot(D2(b->centroid()) - p0, down), v = dot(D2(b->velocity()), down);
    double y    = dot(D2(b->centroid()) - p0, up);
    PBT_CHECK(std::abs(y) < 0.15, "the box moved by ", y, " away from the slope");
    if (std::tan(std::abs(th)) < mu * 0.95 - 0.01)
    {
        PBT_CHECK(std::abs(x) < 0.03 && std::abs(v) < 0.03, "the box slid by ", x, " at ", v, " although friction holds it");
        s.label("held");
    }
    else if (std::tan(std::abs(th)) > mu * 1.05 + 0.01)
    {
        double want = v0 + accel * t;
        PBT_CHECK(std::abs(v - want) < 0.05 * want + 0.05, "the box slides at ", v, " instead of ", want);
        s.label("slides");
    }
    s.nontrivial(std::abs(th) > 0.05);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C23",
         "impact: pairs of bodies that touch in a generated direction, thrown at each other without friction, over up to 12 "
         "steps. friction: the same with friction and many iterations. separate: pairs that overlap. rest: shapes and stacks "
         "of boxes dropped on a floor for 4 s. slope: a box on a slope for 0.8 s. Non-trivial: velocities changed by more than "
         "0.1; friction with a pushing contact; an overlap that has to be corrected; a stack or a turned shape; a slope.",
         {"contacts at two points that act almost alike and wedges are left out of friction"},
         {{"impact", impact, 40000, 1500000, 10}, {"friction", friction, 20000, 500000, 10}, {"separate", separate, 4000, 100000, 10}, {"rest", rest, 800, 20000, 10}, {"slope", slope, 2000, 50000, 10}}}
    );
}
