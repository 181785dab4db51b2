// C05: rotations, translations and rigid transforms
// SOURCES: math
// FLAGS: ubsan cov
#include "gen.hpp"

#include "Simu/physics/Transform.hpp"

using namespace simu;
using namespace gen;

namespace
{

// reference rigid map: rotate then translate
struct Rigid
{
    double t = 0; // angle
    D2     o{};

    D2    operator()(D2 p) const { return rot(p, t) + o; }
    Rigid operator*(const Rigid& r) const { return {t + r.t, rot(r.o, t) + o}; }
    Rigid inverse() const { return {-t, rot(-o, -t)}; }
};

struct Node
{
    int         kind; // 0 rotation, 1 translation, 2 transform
    Rotation    r{0.f};
    Translation t{Vec2{}};
    Transform   T{};
    Rigid       ref{};
    std::string how;

    Vec2 apply(Vec2 p) const { return kind == 0 ? r * p : kind == 1 ? t * p : T * p; }
    Mat3 matrix() const { return kind == 0 ? Mat3(r) : kind == 1 ? Mat3(t) : Mat3(T); }
};

Node of(Rotation r) { return Node{0, r}; }
Node of(Translation t)
{
    Node n{1};
    n.t = t;
    return n;
}
Node of(Transform T)
{
    Node n{2};
    n.T = T;
    return n;
}

Node multiply(const Node& a, const Node& b)
{
    switch (a.kind * 3 + b.kind)
    {
        case 0: return of(a.r * b.r);
        case 1: return of(a.r * b.t);
        case 2: return of(a.r * b.T);
        case 3: return of(a.t * b.r);
        case 4: return of(a.t * b.t);
        case 5: return of(a.t * b.T);
        case 6: return of(a.T * b.r);
        case 7: return of(a.T * b.t);
        default: return of(a.T * b.T);
    }
}

double angle(Source& s)
{
    switch (s.weighted({3, 3, 1}))
    {
        case 0: return s.real(-7, 7);
        case 1: return (double)s.integer(-8, 8) * M_PI / 4;
        default: return s.real(-200, 200);
    }
}

Node leaf(Source& s)
{
    Node n{};
    switch (s.index(4))
    {
        case 0:
        {
            float t = (float)angle(s);
            n       = s.boolean() ? of(Rotation{t}) : of(Transform::rotation(t));
            n.ref   = {t, {}};
            n.how   = pbt::cat("R(", t, ")");
            break;
        }
        case 1:
        {
            Vec2 o = vec(s, 100);
            n      = s.boolean() ? of(Translation{o}) : of(Transform::translation(o));
            n.ref  = {0, o};
            n.how  = pbt::cat("T(", o, ")");
            break;
        }
        case 2:
        {
            float t = (float)angle(s);
            Vec2  o = vec(s, 100);
            n       = of(Transform{Rotation{t}, Translation{o}});
            n.ref   = {t, o};
            n.how   = pbt::cat("X(", t, ", ", o, ")");
            break;
        }
        default:
        {
            float t = (float)angle(s);
            Vec2  o = vec(s, 100), c = vec(s, 100);
            n     = of(Transform::transformAround(t, o, c));
            n.ref = {t, D2(o) + D2(c) - rot(c, t)};
            n.how = pbt::cat("around(", t, ", ", o, ", ", c, ")");
            Vec2 fixed = n.T * c;
            PBT_CHECK(norm(D2(fixed) - (D2(c) + D2(o))) < 1e-3, "the origin of the transform maps to ", fixed, " for ", n.how);
            break;
        }
    }
    return n;
}

void compose(Source& s)
{
    Node   n     = leaf(s);
    long   ops   = s.size(0, 8);
    double reach = norm(n.ref.o), turns = std::abs(n.ref.t);
    int    mixed = 0;
    for (long i = 0; i < ops; ++i)
    {
        switch (s.index(4))
        {
            case 0:
            case 1:
            {
                Node m = leaf(s);
                mixed += m.kind != n.kind || m.kind == 2;
                reach += norm(m.ref.o), turns += std::abs(m.ref.t);
                bool  left = s.boolean();
                Node  r    = left ? multiply(m, n) : multiply(n, m);
                r.ref      = left ? m.ref * n.ref : n.ref * m.ref;
                r.how      = left ? m.how + "*(" + n.how + ")" : "(" + n.how + ")*" + m.how;
                // composition is successive application
                Vec2 p  = vec(s, 50);
                Vec2 q1 = r.apply(p), q2 = left ? m.apply(n.apply(p)) : n.apply(m.apply(p));
                double tol = 1e-6 * (reach + 75) * (8 + turns);
                PBT_CHECK(norm(D2(q1) - D2(q2)) <= tol, r.how, " maps ", p, " to ", q1, ", one after the other they map it to ", q2);
                n = r;
                break;
            }
            case 2:
            {
                Rigid ref = n.ref.inverse();
                std::string how = "inv(" + n.how + ")";
                Node  m         = n.kind == 0 ? of(n.r.inverse()) : n.kind == 1 ? of(n.t.inverse()) : of(n.T.inverse());
                Vec2  p         = vec(s, 50);
                double tol      = 1e-6 * (reach + 75) * (8 + turns);
                PBT_CHECK(norm(D2(m.apply(n.apply(p))) - D2(p)) <= tol && norm(D2(n.apply(m.apply(p))) - D2(p)) <= tol,
                          how, " does not undo it at ", p);
                n     = m;
                n.ref = ref;
                n.how = how;
                ++mixed;
                break;
            }
            default:
            {
                // in place
                if (n.kind == 0)
                {
                    float t = (float)angle(s);
                    if (s.boolean())
                        n.r *= Rotation{t}, n.ref.t += t, n.how = "(" + n.how + pbt::cat(")*=R(", t, ")");
                    else
                        n.r.set(t), n.ref.t = t, n.how = pbt::cat("set R(", t, ")");
                    turns += std::abs(t);
                }
                else if (n.kind == 1)
                {
                    Vec2 o = vec(s, 100);
                    if (s.boolean())
                        n.t *= Translation{o}, n.ref.o += o, n.how = "(" + n.how + pbt::cat(")*=T(", o, ")");
                    else
                        n.t.set(o), n.ref.o = o, n.how = pbt::cat("set T(", o, ")");
                    reach += norm(o);
                }
                else
                {
                    float t = (float)angle(s);
                    Vec2  o = vec(s, 100);
                    n.T.rotation().set(t);
                    n.T.translation().set(o);
                    n.ref = {t, o};
                    n.how = pbt::cat("set X(", t, ", ", o, ")");
                    turns += std::abs(t), reach += norm(o);
                }
            }
        }
    }
    s.note(n.how);
    double tol = 1e-6 * (reach + 75) * (8 + turns);
    Vec2   p   = vec(s, 50);
    D2     e   = n.ref(p);
    Vec2   q   = n.apply(p);
    PBT_CHECK(norm(D2(q) - e) <= tol, n.how, " maps ", p, " to ", q, " instead of ", e);
    // rigid
    Vec2 p2 = vec(s, 50), q2 = n.apply(p2);
    PBT_CHECK(close(norm(D2(q) - D2(q2)), norm(D2(p) - D2(p2)), tol), "distances are not preserved by ", n.how);
    PBT_CHECK(close(cross(D2(n.apply(Vec2{1, 0})) - D2(n.apply(Vec2{})), D2(n.apply(Vec2{0, 1})) - D2(n.apply(Vec2{}))), 1, tol),
              "orientation is not preserved by ", n.how);
    // the matrix is the same map
    Mat3 M  = n.matrix();
    Vec2 qm = M * p;
    PBT_CHECK(norm(D2(qm) - D2(q)) <= tol, "the matrix of ", n.how, " maps ", p, " to ", qm, " instead of ", q);
    PBT_CHECK(M(2, 0) == 0 && M(2, 1) == 0 && M(2, 2) == 1, "last row of the matrix of ", n.how, ": ", M);
    // the parts
    double ta = 1e-6 * (8 + turns);
    if (n.kind == 0)
        PBT_CHECK(close(n.r.theta(), n.ref.t, ta), "angle of ", n.how, ": ", n.r.theta(), " instead of ", n.ref.t);
    if (n.kind == 1)
        PBT_CHECK(norm(D2(n.t.offset()) - n.ref.o) <= tol, "offset of ", n.how, ": ", n.t.offset());
    if (n.kind == 2)
    {
        PBT_CHECK(close(n.T.rotation().theta(), n.ref.t, ta), "angle of ", n.how, ": ", n.T.rotation().theta(), " instead of ", n.ref.t);
        PBT_CHECK(norm(D2(n.T.translation().offset()) - n.ref.o) <= tol, "offset of ", n.how, ": ", n.T.translation().offset());
    }
    s.label(n.kind == 0 ? "rotation" : n.kind == 1 ? "translation" : "transform");
    s.nontrivial(mixed >= 2);
}

void identity(Source& s)
{
    Vec2 p{anyFloat(s, 1e20f), anyFloat(s, 1e20f)};
    Transform T = s.boolean() ? Transform::identity() : Transform{};
    PBT_CHECK(all(T * p == p), "identity moves ", p);
    PBT_CHECK(all(T.inverse() * p == p), "inverse of identity moves ", p);
    Node n = leaf(s);
    Vec2 q = vec(s, 50);
    Node a = multiply(of(T), n), b = multiply(n, of(T));
    PBT_CHECK(all(a.apply(q) == n.apply(q)) && all(b.apply(q) == n.apply(q)), "identity composed with ", n.how, " at ", q);
    s.nontrivial(n.kind == 2);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C05",
         "Chains of up to 9 rotations, translations, transforms and transforms around a point, multiplied on either "
         "side, inverted and modified in place, against rigid maps in double precision. Non-trivial: at least two "
         "operations mixing kinds or inverting.",
         {"tolerances are relative to the offsets and angles involved (single precision)"},
         {{"compose", compose, 700000, 20000000, 5}, {"identity", identity, 150000, 2000000, 5}}}
    );
}
