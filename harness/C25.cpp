// C25: motors and the mouse
// SOURCES: math physics
// FLAGS: ubsan cov -DSIMU_VERIF_SYSTEM_ALLOCATOR
#include "joint_common.hpp"

#include "Simu/app/MouseConstraint.hpp"

namespace
{

double positive(Source& s) { return s.pick({1.0, 0.1, 10.0, 300.0}) * s.real(0.1, 1); }

double towards(double impulse, double bound) { return bound < 0 ? std::clamp(impulse, bound, 0.0) : std::clamp(impulse, 0.0, bound); }

struct Powered
{
    Body*             body;
    RotationMotor*    rot   = nullptr;
    TranslationMotor* trans = nullptr;
    MouseConstraint*  mouse = nullptr;
    double            spin = 0, torque = 0, speed = 0, force = 0;
    double            rotThrottle = 1, transThrottle = 1, rotDir = 0;
    D2                dir{};
    Vec2              local{}, target{};
};

Vec2 aim(Source& s)
{
    switch (s.index(4))
    {
        case 0: return Vec2{};
        case 1: return s.pick({Vec2{1, 0}, Vec2{-1, 0}, Vec2{0, 1}, Vec2{0, -1}});
        default: return vec(s, 3);
    }
}

void motors(Source& s)
{
    World                world{};
    std::vector<Powered> all;
    long                 n = s.integer(1, 3);
    bool                 drag = false, limited = false, reached = false, faster = false, off = false;
    for (long i = 0; i < n; ++i)
    {
        Material m{};
        m.density = s.pick({1.f, 0.2f, 5.f});
        Powered p{};
        p.body = makeBody(world, s.boolean() ? boxVerts(s.pick({1.0, 2.0}), 1) : convexAround(s, 0.5, 1.5), Vec2{1000.f * i, 0}, s.boolean() ? 0 : s.real(-3, 3), s.pick({1.0, 1.0, 0.5, 3.0}), m);
        if (s.chance(1, 3))
            p.body->addCollider(descriptor(boxVerts(1, 0.5, vec(s, 2)), m));
        double mass = p.body->mass(), I = p.body->inertia();
        if (s.chance(2, 3))
        {
            p.spin = (float)positive(s);
            double sign = s.chance(1, 6) ? -1 : 1; // absolute values count
            switch (s.index(4))
            {
                case 0:
                    p.torque = (float)positive(s);
                    p.rot    = world.makeConstraint<RotationMotor>(Bodies::singleBody(p.body), RotationMotor::Specs::fromTorque((float)(sign * p.spin), (float)p.torque));
                    break;
                case 1:
                {
                    double a = (float)positive(s);
                    p.torque = a * I;
                    p.rot    = world.makeConstraint<RotationMotor>(Bodies::singleBody(p.body), RotationMotor::Specs::fromAccel((float)(sign * p.spin), (float)a));
                    break;
                }
                case 2:
                {
                    double a = (float)positive(s), target = (float)positive(s);
                    p.torque = a * target;
                    p.rot = world.makeConstraint<RotationMotor>(Bodies::singleBody(p.body), RotationMotor::Specs::fromAccel((float)(sign * p.spin), (float)a, (float)target));
                    break;
                }
                default:
                {
                    double r = (float)s.real(0.2, 3), f = (float)positive(s);
                    p.torque = r * f;
                    p.rot = world.makeConstraint<RotationMotor>(Bodies::singleBody(p.body), RotationMotor::Specs::fromTargetForce((float)(sign * p.spin), (float)r, (float)f));
                }
            }
            s.note("body ", i, ": rotation up to ", p.spin, " with torque ", p.torque);
        }
        if (!p.rot || s.boolean())
        {
            p.speed     = (float)positive(s);
            double sign = s.chance(1, 6) ? -1 : 1;
            if (s.boolean())
            {
                p.force = (float)positive(s);
                p.trans = world.makeConstraint<TranslationMotor>(Bodies::singleBody(p.body), TranslationMotor::Specs::fromForce((float)(sign * p.speed), (float)p.force));
            }
            else if (s.boolean())
            {
                double a = (float)positive(s);
                p.force  = a * mass;
                p.trans  = world.makeConstraint<TranslationMotor>(Bodies::singleBody(p.body), TranslationMotor::Specs::fromAccel((float)p.speed, (float)(sign * a)));
            }
            else
            {
                double a = (float)positive(s), target = (float)positive(s);
                p.force  = a * target;
                p.trans  = world.makeConstraint<TranslationMotor>(Bodies::singleBody(p.body), TranslationMotor::Specs::fromAccel((float)p.speed, (float)a, (float)target));
            }
            s.note("body ", i, ": speed up to ", p.speed, " with force ", p.force);
        }
        if (s.boolean())
            p.body->setVelocity(vec(s, 20));
        if (s.boolean())
            p.body->setAngularVelocity(s.f(-20, 20));
        s.note("body ", i, ": mass ", mass, " inertia ", I, " velocity ", p.body->velocity(), " ", p.body->angularVelocity());
        all.push_back(p);
    }
    D2 g{};
    if (s.boolean())
    {
        g = D2(vec(s, 10));
        world.makeForceField<Gravity>(toVec(g));
        drag = true;
    }
    s.note("gravity ", g);
    for (long step = 0, steps = s.size(1, 30); step < steps; ++step)
    {
        World::Settings st{};
        st.nVelocityIterations = (Uint32)s.integer(1, 8);
        st.nPositionIterations = (Uint32)s.integer(0, 3);
        st.enableWarmstarting  = s.boolean();
        world.updateSettings(st);
        float dt = s.pick({0.01f, 0.02f, 0.1f});
        for (Powered& p : all)
        {
            if (step == 0 || s.chance(1, 5))
            {
                if (p.rot)
                {
                    float d = s.pick({1.f, -1.f, 0.f, 4.f, -0.3f});
                    p.rot->direction(Vector<float, 1>{d});
                    p.rotDir = d > 0 ? 1 : d < 0 ? -1 : 0;
                    PBT_CHECK(p.rot->direction()[0] == p.rotDir, "the direction of the motor is ", p.rot->direction()[0]);
                    s.note("direction ", d);
                }
                if (p.trans)
                {
                    Vec2 d = aim(s);
                    p.trans->direction(d);
                    p.dir = norm(D2(d)) == 0 ? D2{} : D2(d) / norm(D2(d));
                    PBT_CHECK(norm(D2(p.trans->direction()) - p.dir) < 1e-6, "the direction of the motor is ", p.trans->direction(), " for ", d);
                    s.note("direction ", d);
                }
            }
            if (s.chance(1, 5))
            {
                double t = s.pick({1.0, 0.5, 0.0, 2.0, -1.0});
                if (p.rot && s.boolean())
                {
                    p.rot->throttle((float)t);
                    p.rotThrottle = std::clamp(t, 0., 1.);
                    PBT_CHECK(p.rot->throttle() == p.rotThrottle, "the throttle is ", p.rot->throttle(), " instead of ", p.rotThrottle);
                }
                else if (p.trans)
                {
                    p.trans->throttle((float)t);
                    p.transThrottle = std::clamp(t, 0., 1.);
                    PBT_CHECK(p.trans->throttle() == p.transThrottle, "the throttle is ", p.trans->throttle(), " instead of ", p.transThrottle);
                }
                s.note("throttle ", t);
            }
            if (s.chance(1, 10))
                p.body->setVelocity(vec(s, 20));
        }
        std::vector<D2>     v0;
        std::vector<double> w0;
        std::vector<D2>     c0;
        std::vector<double> th0;
        for (Powered& p : all)
        {
            v0.push_back(D2(p.body->velocity()) + g * dt);
            w0.push_back(p.body->angularVelocity());
            c0.push_back(D2(p.body->centroid()));
            th0.push_back(p.body->orientation());
        }
        world.step(dt);
        for (std::size_t i = 0; i < all.size(); ++i)
        {
            Powered& p    = all[i];
            double   mass = p.body->mass(), I = p.body->inertia();
            D2       v = v0[i];
            double   w = w0[i], scale = norm(v0[i]) + p.speed, wscale = std::abs(w0[i]) + p.spin;
            // warm starting applies the previous impulse first
            if (p.rot)
            {
                double bound   = p.rotDir * p.rotThrottle * p.torque * dt;
                double impulse = towards(I * (p.rotDir * p.spin - w0[i]), bound);
                w += impulse / I;
                wscale += p.torque * 0.1 / I;
                limited = limited || (impulse == bound && bound != 0);
                reached = reached || (impulse != bound && impulse != 0);
                faster  = faster || (impulse == 0 && bound != 0);
                off     = off || bound == 0;
            }
            if (p.trans)
            {
                D2 bound = p.dir * (p.transThrottle * p.force * dt);
                D2 impulse{towards(mass * (p.dir.x * p.speed - v0[i].x), bound.x), towards(mass * (p.dir.y * p.speed - v0[i].y), bound.y)};
                v += impulse / mass;
                scale += p.force * 0.1 / mass;
                limited = limited || (impulse.x == bound.x && bound.x != 0);
                reached = reached || (impulse.x != bound.x && impulse.x != 0);
            }
            D2     gotV = D2(p.body->velocity());
            double gotW = p.body->angularVelocity();
            PBT_CHECK(norm(gotV - v) <= 2e-5 * (scale + 0.1), "step ", step, ": the velocity of body ", i, " is ", gotV, " instead of ", v, " (before: ", v0[i], ")");
            PBT_CHECK(std::abs(gotW - w) <= 2e-5 * (wscale + 0.1), "step ", step, ": the angular velocity of body ", i, " is ", gotW, " instead of ", w, " (before: ", w0[i], ")");
            // motors do not move bodies otherwise
            D2 c = c0[i] + gotV * dt;
            PBT_CHECK(norm(D2(p.body->centroid()) - c) <= 1e-6 * (norm(c) + 3) * 2, "step ", step, ": body ", i, " is at ", p.body->centroid(), " instead of ", c);
            double th = th0[i] + gotW * dt;
            PBT_CHECK(std::abs(p.body->orientation() - th) <= 1e-6 * (std::abs(th) + 1), "step ", step, ": body ", i, " turned to ", p.body->orientation(), " instead of ", th);
        }
    }
    s.labelIf(drag, "gravity");
    s.labelIf(limited, "limited by the force");
    s.labelIf(reached, "velocity reached");
    s.labelIf(faster, "faster than the motor");
    s.labelIf(off, "off");
    s.nontrivial(limited && reached);
}

// a body is grabbed at a point
void mouse(Source& s)
{
    World    world{};
    Material m{};
    m.density = s.pick({1.f, 0.2f, 5.f});
    Body* b   = makeBody(world, s.boolean() ? boxVerts(s.pick({1.0, 2.0}), 1) : convexAround(s, 0.5, 1.5), vec(s, 5), s.boolean() ? 0 : s.real(-3, 3), s.pick({1.0, 1.0, 0.5, 3.0}), m);
    if (s.chance(1, 3))
        b->addCollider(descriptor(boxVerts(1, 0.5, vec(s, 2)), m));
    if (s.boolean())
        b->setVelocity(vec(s, 5));
    if (s.boolean())
        b->setAngularVelocity(s.f(-5, 5));
    Pose  p0{b};
    Vec2  grab  = s.chance(1, 4) ? b->centroid() : b->centroid() + vec(s, 1.5);
    D2    local = p0.local(D2(grab));
    auto* c     = world.makeConstraint<MouseConstraint>(b, grab);
    D2    to    = D2(grab);
    D2    g     = s.boolean() ? D2(vec(s, 10)) : D2{};
    world.makeForceField<Gravity>(toVec(g));
    double wm = 1 / (double)b->mass(), wi = 1 / (double)b->inertia();
    D6     W{wm, wm, wi, 0, 0, 0};
    double previous = 0;
    bool   pulled   = false;
    s.note("mass ", b->mass(), " inertia ", b->inertia(), " velocity ", b->velocity(), " ", b->angularVelocity(), " centroid ", b->centroid(), " grabbed at ", grab, " gravity ", g);
    PBT_CHECK(norm(D2(c->bodyPos()) - to) < 1e-5 * (1 + norm(to)), "the grabbed point is at ", c->bodyPos(), " instead of ", grab);
    for (long step = 0, steps = s.size(1, 60); step < steps; ++step)
    {
        World::Settings st{};
        st.nVelocityIterations = (Uint32)s.integer(1, 8);
        st.nPositionIterations = (Uint32)s.integer(0, 3);
        st.enableWarmstarting  = s.boolean();
        world.updateSettings(st);
        float dt = s.pick({0.02f, 0.01f, 0.05f});
        if (s.chance(1, 5))
        {
            Vec2 t = toVec(to) + vec(s, 3);
            to     = D2(t);
            c->updateMousePos(t);
            s.note("moved to ", t);
        }
        PBT_CHECK(norm(D2(c->mousePos()) - to) == 0, "the mouse is at ", c->mousePos(), " instead of ", to);
        Pose p{b};
        D6   v0 = {b->velocity()[0] + g.x * dt, b->velocity()[1] + g.y * dt, b->angularVelocity(), 0, 0, 0};
        D2   r  = p(local) - p.centroid(), e = p(local) - to;
        PBT_CHECK(norm(D2(c->bodyPos()) - p(local)) < 1e-4, "the grabbed point is at ", c->bodyPos(), " instead of ", p(local));
        Rows rows;
        rows.J = {{1, 0, -r.y, 0, 0, 0}, {0, 1, r.x, 0, 0, 0}};
        rows.b = {-0.1 * e.x / dt, -0.1 * e.y / dt};
        D6 want = project(rows, W, v0, 1);
        world.step(dt);
        D6     v{b->velocity()[0], b->velocity()[1], b->angularVelocity(), 0, 0, 0};
        double scale = previous;
        previous     = 0;
        for (int k = 0; k < 3; ++k)
        {
            scale    = std::max({scale, std::abs(v0[k]), std::abs(want[k])});
            previous = std::max(previous, std::abs(v[k] - v0[k]));
        }
        for (int k = 0; k < 3; ++k)
            PBT_CHECK(std::abs(v[k] - want[k]) <= 1e-3 * (0.2 + scale), "step ", step, ": component ", k, " of the velocity is ", v[k], " instead of ", want[k], " (before: ", v0[k], ")");
        pulled = pulled || norm(e) > 0.1;
        D2 c1  = p.centroid() + D2{v[0], v[1]} * dt;
        PBT_CHECK(norm(D2(b->centroid()) - c1) <= 1e-5 * (1 + norm(c1)), "step ", step, ": the body is at ", b->centroid(), " instead of ", c1);
        if (std::abs(v[2]) > 40 || norm(D2{v[0], v[1]}) > 100 || norm(c1) > 100)
            break;
    }
    if (s.boolean())
    {
        // released
        c->kill();
        D2     v = D2(b->velocity());
        double w = b->angularVelocity();
        world.step(0.01f);
        PBT_CHECK(norm(D2(b->velocity()) - v - g * 0.01f) < 1e-5 * (1 + norm(v)) && std::abs(b->angularVelocity() - w) < 1e-5 * (1 + std::abs(w)), "the mouse holds a body after it was released: ", b->velocity(), " ", b->angularVelocity(), " from ", v, " ", w);
        s.label("released");
    }
    s.nontrivial(pulled);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C25",
         "motors: up to 3 bodies with rotation and translation motors of all kinds of specifications, up to 30 steps of "
         "generated directions, throttles, settings, gravity and velocities. mouse: a body grabbed at a point, with gravity, "
         "and a mouse that moves. Non-trivial: a motor reaches its limit of force and its velocity; the mouse is more than 0.1 "
         "away from the grabbed point.",
         {"each motor acts alone on its body"},
         {{"motors", motors, 60000, 2000000, 10}, {"mouse", mouse, 40000, 1500000, 10}}}
    );
}
