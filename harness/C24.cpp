// C24: joints hold
// SOURCES: math physics
// FLAGS: ubsan cov -DSIMU_VERIF_SYSTEM_ALLOCATOR
#include "joint_common.hpp"

namespace
{

enum Kind
{
    rotation,
    hinge,
    weld,
    distance,
    limits
};

struct Joint
{
    Kind                  kind;
    Constraint*           ptr = nullptr;
    Body *                a, *b;
    D2                    la{}, lb{}; // in local space
    double                angle = 0;
    std::optional<double> lo{}, hi{};

    D2 gap(const Pose& pa, const Pose& pb) const { return pb(lb) - pa(la); }

    double turn(const Pose& pa, const Pose& pb) const { return pb.theta - pa.theta - angle; }

    double length(const Pose& pa, const Pose& pb) const { return norm(gap(pa, pb)); }

    Rows rows(const Pose& pa, const Pose& pb) const
    {
        Rows r;
        D2   ra = pa(la) - pa.centroid(), rb = pb(lb) - pb.centroid();
        if (kind == hinge || kind == weld)
        {
            r.J.push_back({-1, 0, ra.y, 1, 0, -rb.y});
            r.J.push_back({0, -1, -ra.x, 0, 1, rb.x});
        }
        if (kind == rotation || kind == weld)
            r.J.push_back({0, 0, -1, 0, 0, 1});
        if (kind == distance || kind == limits)
        {
            D2 d = gap(pa, pb);
            d    = d / norm(d);
            r.J.push_back({-d.x, -d.y, -cross(ra, d), d.x, d.y, cross(rb, d)});
        }
        r.b.assign(r.J.size(), 0);
        return r;
    }

    // how far it is from holding
    double error(const Pose& pa, const Pose& pb) const
    {
        double e = 0;
        if (kind == hinge || kind == weld)
            e = norm(gap(pa, pb));
        if (kind == rotation || kind == weld)
            e = std::max(e, std::abs(turn(pa, pb)));
        if (kind == distance || kind == limits)
        {
            if (lo)
                e = std::max(e, *lo - length(pa, pb));
            if (hi)
                e = std::max(e, length(pa, pb) - *hi);
        }
        return e;
    }
};

double density(Source& s) { return s.pick({1.0, 1.0, 0.3, 4.0}); }

Body* place(Source& s, World& w, Vec2 pos, double dom)
{
    Material m{};
    m.density                = (float)density(s);
    std::vector<Vec2> shape = s.boolean() ? boxVerts(s.pick({1.0, 2.0}), 1) : convexAround(s, 0.5, 1.5);
    double            th    = s.boolean() ? 0 : s.real(-3, 3);
    Body*             b     = makeBody(w, shape, pos, th, dom, m);
    if (s.chance(1, 3))
        b->addCollider(descriptor(boxVerts(1, 0.5, vec(s, 1)), m));
    return b;
}

Joint make(Source& s, World& w, Body* a, Body* b, bool off)
{
    Joint  j{(Kind)s.integer(0, 4), nullptr, a, b};
    Bodies bs{a, b};
    D2     ca = D2(a->centroid()), cb = D2(b->centroid());
    Vec2   p = toVec(ca) + vec(s, 1.5), q = toVec(cb) + vec(s, 1.5);
    switch (j.kind)
    {
        case rotation: j.ptr = w.makeConstraint<RotationConstraint>(bs, off); break;
        case hinge:
            p = q = toVec((ca + cb) / 2) + (s.boolean() ? Vec2{} : vec(s, 1));
            j.ptr = w.makeConstraint<HingeConstraint>(bs, p, off);
            break;
        case weld:
            p = q = toVec((ca + cb) / 2);
            j.ptr = w.makeConstraint<WeldConstraint>(bs, off);
            break;
        case distance:
        {
            double d = norm(D2(p) - D2(q));
            if (d < 0.5)
                throw pbt::Discard{};
            if (s.boolean())
                j.ptr = w.makeConstraint<DistanceConstraint>(bs, std::array<Vec2, 2>{p, q}, off);
            else
            {
                // it may have to come to it
                d *= s.boolean() ? 1 : s.real(0.9, 1.1);
                j.ptr = w.makeConstraint<DistanceConstraint>(bs, std::array<Vec2, 2>{p, q}, (float)d, off);
            }
            j.lo = j.hi = d;
            break;
        }
        case limits:
        {
            double d = norm(D2(p) - D2(q));
            if (d < 0.5)
                throw pbt::Discard{};
            int which = (int)s.integer(0, 2);
            if (which != 0)
                j.lo = (float)(d * s.real(0.7, 1.05));
            if (which != 1)
                j.hi = (float)(d * s.real(which == 0 ? 0.95 : 1.06, 1.4));
            std::optional<float> lo{}, hi{};
            if (j.lo)
                lo = (float)*j.lo;
            if (j.hi)
                hi = (float)*j.hi;
            j.ptr = w.makeConstraint<DistanceConstraint>(bs, std::array<Vec2, 2>{p, q}, lo, hi, off);
        }
    }
    Pose pa{a}, pb{b};
    j.la    = pa.local(D2(p));
    j.lb    = pb.local(D2(q));
    j.angle = pb.theta - pa.theta;
    s.note("joint kind ", j.kind, " at ", p, " ", q, j.lo ? pbt::cat(" at least ", *j.lo) : "", j.hi ? pbt::cat(" at most ", *j.hi) : "");
    return j;
}

void single(Source& s)
{
    World world{};
    int   fixed = (int)s.weighted({3, 1, 1});
    double da = fixed == 1 ? 0 : s.pick({1.0, 1.0, 0.5, 2.0}), db = fixed == 2 ? 0 : s.pick({1.0, 1.0, 0.5, 2.0});
    Body*  a = place(s, world, vec(s, 3), da);
    Body*  b = place(s, world, a->position() + vec(s, 3), db);
    Joint  j = make(s, world, a, b, true);
    if (s.boolean())
    {
        a->setVelocity(vec(s, 3));
        b->setVelocity(vec(s, 3));
    }
    if (s.boolean())
    {
        a->setAngularVelocity(s.f(-4, 4));
        b->setAngularVelocity(s.f(-4, 4));
    }
    if (fixed)
    {
        Body* f = fixed == 1 ? a : b;
        // platforms may move
        if (!s.chance(1, 4))
            f->setVelocity(Vec2{}), f->setAngularVelocity(0);
    }
    D2 g{};
    if (s.boolean())
    {
        g = {s.real(-3, 3), s.real(-10, 0)};
        g = D2(toVec(g));
        world.makeForceField<Gravity>(toVec(g));
    }
    D6     W{};
    double d[2] = {da, db};
    for (int i = 0; i < 2; ++i)
    {
        const Body* x  = i ? b : a;
        W[3 * i]       = W[3 * i + 1] = d[i] == 0 ? 0 : d[i] / x->mass();
        W[3 * i + 2]   = d[i] == 0 ? 0 : d[i] / x->inertia();
    }
    if (j.kind == rotation && W[2] + W[5] == 0)
        throw pbt::Discard{};
    bool   acted = false, inside = false, limited = false, pushes = false;
    double dt    = s.pick({0.01f, 0.02f, 0.005f});
    long   steps = s.size(1, 60);
    double error = j.error(Pose{a}, Pose{b}), previous = 0;
    s.note("gravity ", g, " dt ", dt, " steps ", steps, " velocities ", a->velocity(), " ", a->angularVelocity(), " ", b->velocity(), " ", b->angularVelocity());
    for (long i = 0; i < steps; ++i)
    {
        World::Settings st{};
        st.nVelocityIterations = (Uint32)s.integer(1, 8);
        st.nPositionIterations = (Uint32)s.integer(3, 5);
        st.enableWarmstarting  = s.boolean();
        world.updateSettings(st);
        if (s.chance(1, 10))
        {
            Body* x = s.boolean() ? a : b;
            if (!x->isStructural())
                x->applyImpulse(vec(s, 1) * x->mass(), vec(s, 1));
        }
        Pose pa{a}, pb{b};
        D6   v0 = velocities(a, b);
        for (int k = 0; k < 2; ++k)
            if (d[k] != 0)
            {
                v0[3 * k] += g.x * dt;
                v0[3 * k + 1] += g.y * dt;
            }
        Rows   r    = j.rows(pa, pb);
        double len  = j.kind >= distance ? j.length(pa, pb) : 0;
        double lim  = 1e-5 * (1 + len);
        D6     want = project(r, W, v0);
        bool   active = true, unsure = false;
        if (j.kind >= distance && len < 0.2)
            return; // degenerate
        if (j.kind == limits)
        {
            double u = dot6(r.J[0], v0);
            active   = false;
            if (j.lo && len < *j.lo + lim)
            {
                active = len < *j.lo - lim;
                unsure = !active;
                pushes = true;
                if (active && u >= 0)
                    want = v0;
            }
            if (j.hi && len > *j.hi - lim)
            {
                active = len > *j.hi + lim;
                unsure = !active;
                if (active && u <= 0)
                    want = v0;
            }
            if (!active)
                want = v0;
            limited = limited || active;
            inside  = inside || (!active && !unsure);
        }
        world.step((float)dt);
        D6     v     = velocities(a, b);
        double scale = 0;
        for (int k = 0; k < 6; ++k)
        {
            PBT_CHECK(std::isfinite(v[k]), "step ", i, ": velocities are not finite");
            scale = std::max({scale, std::abs(v0[k]), std::abs(want[k])});
        }
        // warm starting applies the previous impulse first
        double tol = 2e-3 * (0.2 + scale + previous);
        previous   = 0;
        for (int k = 0; k < 6; ++k)
            previous = std::max(previous, std::abs(v[k] - v0[k]));
        if (!unsure)
            for (int k = 0; k < 6; ++k)
                PBT_CHECK(std::abs(v[k] - want[k]) <= tol, "step ", i, ": component ", k, " of the velocities is ", v[k], " instead of ", want[k], " (before: ", v0[k], ")");
        double moved = 0;
        for (int k = 0; k < 6; ++k)
            moved = std::max(moved, std::abs(v[k]) * dt * (k % 3 == 2 ? 3 : 1));
        acted = acted || std::abs(want[0] - v0[0]) + std::abs(want[3] - v0[3]) + std::abs(want[2] - v0[2]) + std::abs(want[5] - v0[5]) > 0.1;

        // after the step
        Pose   qa{a}, qb{b};
        double e = j.error(qa, qb);
        if (j.kind == limits && !active)
            // the limit is only known at the next step
            PBT_CHECK(e <= 4 * moved + 1e-4, "step ", i, ": the limit is exceeded by ", e);
        else if (moved < 0.1 && error < 0.03)
            PBT_CHECK(e <= 2e-4 + 0.05 * (error + moved * moved), "step ", i, ": the joint is off by ", e, " (before: ", error, ", moved: ", moved, ")");
        if (moved < 0.1 && (active || unsure))
            PBT_CHECK(e <= 1e-4 + 1.2 * error + 4 * moved, "step ", i, ": the error of the joint grew from ", error, " to ", e);
        // the correction moves bodies as their masses
        D2     com{};
        bool   free = d[0] != 0 && d[1] != 0;
        if (free)
        {
            double ma = 1 / W[0], mb = 1 / W[3];
            D2     wanted = pa.centroid() * ma + pb.centroid() * mb + D2{v[0], v[1]} * (ma * dt) + D2{v[3], v[4]} * (mb * dt);
            D2     got    = qa.centroid() * ma + qb.centroid() * mb;
            com           = (got - wanted) / (ma + mb);
            PBT_CHECK(norm(com) <= 2e-5 * (1 + norm(pa.centroid()) + norm(pb.centroid())), "step ", i, ": corrections moved the center of mass by ", com);
        }
        for (int k = 0; k < 2; ++k)
            if (d[k] == 0)
            {
                D2 to = (k ? pb : pa).centroid() + D2{v[3 * k], v[3 * k + 1]} * dt;
                PBT_CHECK(norm((k ? qb : qa).centroid() - to) <= 1e-5 * (1 + norm(to)), "step ", i, ": a structural body was moved by a joint");
            }
        error = e;
        if (norm(D2(a->velocity())) > 30 || norm(D2(b->velocity())) > 30 || std::abs(a->angularVelocity()) > 12 || std::abs(b->angularVelocity()) > 12)
            break;
    }
    s.labelIf(limited, "limit reached");
    s.labelIf(inside, "inside limits");
    s.labelIf(pushes, "minimal distance");
    s.labelIf(fixed != 0, "structural body");
    s.label(pbt::cat("kind ", j.kind));
    s.nontrivial(acted && steps > 2);
}

// one correction of positions, after moves of any size: along the gradient where the bodies are then
void correct(Source& s)
{
    World  world{};
    int    fixed = (int)s.weighted({3, 1, 1});
    double d[2]  = {fixed == 1 ? 0 : s.pick({1.0, 0.5, 2.0}), fixed == 2 ? 0 : s.pick({1.0, 0.5, 2.0})};
    Body*  a     = place(s, world, vec(s, 3), d[0]);
    Body*  b     = place(s, world, a->position() + vec(s, 3), d[1]);
    Joint  j     = make(s, world, a, b, true);
    D6     W{};
    for (int i = 0; i < 2; ++i)
    {
        const Body* x = i ? b : a;
        W[3 * i] = W[3 * i + 1] = d[i] == 0 ? 0 : d[i] / x->mass();
        W[3 * i + 2]            = d[i] == 0 ? 0 : d[i] / x->inertia();
    }
    if (j.kind == rotation && W[2] + W[5] == 0)
        throw pbt::Discard{};
    World::Settings st{};
    st.nVelocityIterations = (Uint32)s.integer(1, 4);
    st.nPositionIterations = 1;
    st.enableWarmstarting  = s.boolean();
    world.updateSettings(st);
    long   steps = s.integer(1, 4);
    double dt = s.pick({0.02, 0.05}), furthest = 0;
    for (long i = 0; i < steps; ++i)
    {
        double speed = s.pick({2.0, 10.0, 30.0}), turns = s.pick({0.0, 2.0, 12.0});
        if (d[0] != 0)
            a->setVelocity(vec(s, (float)speed)), a->setAngularVelocity(s.f((float)-turns, (float)turns));
        if (d[1] != 0)
            b->setVelocity(vec(s, (float)speed)), b->setAngularVelocity(s.f((float)-turns, (float)turns));
        Pose pa{a}, pb{b};
        bool active = true, off = false; // for sure
        if (j.kind == limits)
        {
            double len = j.length(pa, pb);
            active     = (j.lo && len < *j.lo - 1e-3) || (j.hi && len > *j.hi + 1e-3);
            off        = (!j.lo || len > *j.lo + 1e-3) && (!j.hi || len < *j.hi - 1e-3);
        }
        world.step((float)dt);
        D6   v = velocities(a, b);
        Pose qa = pa, qb = pb, ea{a}, eb{b};
        qa.p     = qa.p + D2{v[0], v[1]} * dt;
        qb.p     = qb.p + D2{v[3], v[4]} * dt;
        qa.theta += v[2] * dt;
        qb.theta += v[5] * dt;
        if (j.kind >= distance && j.length(qa, qb) < 0.3)
            throw pbt::Discard{};
        D6     dx{ea.p.x - qa.p.x, ea.p.y - qa.p.y, ea.theta - qa.theta, eb.p.x - qb.p.x, eb.p.y - qb.p.y, eb.theta - qb.theta};
        double size = 0, at = 1 + norm(pa.centroid()) + norm(pb.centroid()) + speed * dt;
        for (double x : dx)
            size = std::max(size, std::abs(x));
        furthest = std::max(furthest, size);
        if (size > 3)
            break; // far from linear
        Rows        r = j.rows(qa, qb);
        std::size_t n = r.J.size();

        std::vector<std::vector<double>> K(n, std::vector<double>(n));
        std::vector<double>              Jdx(n);
        double                           worst = 0, least = 1e30;
        for (std::size_t y = 0; y < n; ++y)
        {
            for (std::size_t x = 0; x < n; ++x)
                for (int k = 0; k < 6; ++k)
                    K[y][x] += r.J[y][k] * W[k] * r.J[x][k];
            Jdx[y] = dot6(r.J[y], dx);
            worst  = std::max(worst, K[y][y]);
            least  = std::min(least, K[y][y]);
        }
        auto   l    = solveDense(K, Jdx);
        D6     rest = dx;
        for (std::size_t y = 0; y < n; ++y)
            for (int k = 0; k < 6; ++k)
                rest[k] -= W[k] * r.J[y][k] * l[y];
        for (int k = 0; k < 6; ++k)
            PBT_CHECK(std::abs(rest[k]) <= 2e-3 * size + 2e-5 * at, "step ", i, ": component ", k, " of the correction is ", dx[k],
                      ", the gradient leaves ", rest[k]);
        // as far as the relation asks
        if (worst < 60 * least)
        {
            double tol = 2e-3 * size + 1e-4 * at;
            D2     gap = j.gap(qa, qb);
            if (j.kind == hinge || j.kind == weld)
                PBT_CHECK(std::abs(Jdx[0] + gap.x) <= tol && std::abs(Jdx[1] + gap.y) <= tol, "step ", i, ": the correction closes ",
                          -Jdx[0], " ", -Jdx[1], " of a gap of ", gap);
            if (j.kind == rotation || j.kind == weld)
                PBT_CHECK(std::abs(Jdx[n - 1] + j.turn(qa, qb)) <= tol, "step ", i, ": the correction turns by ", Jdx[n - 1],
                          " for an angle of ", j.turn(qa, qb));
            if (j.kind >= distance && active)
            {
                double len = norm(gap), over = 0;
                if (j.hi && len > *j.hi)
                    over = len - *j.hi;
                if (j.lo && len < *j.lo)
                    over = len - *j.lo;
                // of the distance, or of its square
                double linear = -over, square = -over * (2 * len - over) / (2 * len);
                PBT_CHECK(Jdx[0] >= std::min(linear, square) - tol && Jdx[0] <= std::max(linear, square) + tol, "step ", i,
                          ": the correction changes the distance by ", Jdx[0], ", it is off by ", over);
            }
        }
        if (off)
            PBT_CHECK(size <= 2e-5 * at, "step ", i, ": corrected by ", size, " between its limits");
    }
    s.labelIf(fixed != 0, "structural body");
    s.label(pbt::cat("kind ", j.kind));
    s.nontrivial(furthest > 0.01);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C24",
         "single: two bodies of one or two colliders, structural, moving or not, with generated dominances, held by one joint "
         "(rotation, hinge, weld, distance, limits), pushed and under gravity for up to 60 steps of generated settings. "
         "Non-trivial: the joint changes velocities by more than 0.1. correct: one iteration of correction after moves of any size, against the "
         "gradient in double precision. Non-trivial: corrections of more than 0.01.",
         {"levers of a few units and turns of less than a quarter turn per step, in single precision"},
         {{"single", single, 60000, 2000000, 10}, {"correct", correct, 60000, 2000000}}}
    );
}
