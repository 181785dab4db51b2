// C10: contact manifolds
// SOURCES: math physics
// FLAGS: ubsan cov
#include "gjk_common.hpp"

#include "Simu/physics.hpp"

using namespace simu;
using namespace gen;

namespace
{

Body* makeBody(World& w, const std::vector<Vec2>& v, Vec2 pos, float theta, const Material& m)
{
    BodyDescriptor d{};
    d.position    = pos;
    d.orientation = theta;
    Body* b       = w.makeBody(d);
    b->addCollider(ColliderDescriptor{Polygon{v.begin(), v.end()}, m});
    return b;
}

std::vector<D2> worldOf(const Body& b)
{
    std::vector<D2> r;
    for (const Collider& c : b.colliders())
        for (Vec2 v : c)
            r.push_back(v);
    return r;
}

double distToBoundary(const std::vector<D2>& h, D2 p)
{
    double best = 1e300;
    for (std::size_t i = 0; i < h.size(); ++i)
    {
        D2     a = h[i], ab = h[(i + 1) % h.size()] - a;
        double t = std::min(1.0, std::max(0.0, dot(p - a, ab) / dot(ab, ab)));
        best     = std::min(best, norm(a + ab * t - p));
    }
    return best;
}

double outside(const std::vector<D2>& h, D2 p)
{
    double worst = -1e300;
    for (std::size_t i = 0; i < h.size(); ++i)
    {
        D2 a = h[i], ab = h[(i + 1) % h.size()] - a;
        worst = std::max(worst, -cross(ab, p - a) / norm(ab));
    }
    return worst;
}

// extreme of the hull along a direction
double support(const std::vector<D2>& h, D2 u)
{
    double m = -1e300;
    for (D2 p : h)
        m = std::max(m, dot(p, u));
    return m;
}

void manifold(Source& s)
{
    World world{};
    // two convex shapes placed with a chosen overlap
    std::vector<Vec2> va = convexAround(s, 0.5, 4), vb = s.chance(1, 4) ? va : convexAround(s, 0.5, 4);
    double            ta = s.chance(1, 2) ? 0 : s.boolean() ? M_PI / 4 * (double)s.integer(-4, 4) : s.real(-4, 4);
    double            tb = s.chance(1, 2) ? 0 : s.boolean() ? M_PI / 4 * (double)s.integer(-4, 4) : s.real(-4, 4);
    Vec2              oa = s.boolean() ? Vec2{} : vec(s, 20);
    Material          ma{}, mb{};
    ma.penetration.value = s.pick({0.005f, 0.01f, 0.05f});
    mb.penetration.value = s.pick({0.005f, 0.02f, 0.05f});
    mb.penetration.mode  = s.pick({CombinableProperty::average, CombinableProperty::maximum, CombinableProperty::minimum});
    double minPen = mb.penetration.mode == CombinableProperty::average ? (ma.penetration.value + (double)mb.penetration.value) / 2
                    : mb.penetration.mode == CombinableProperty::maximum ? std::max(ma.penetration.value, mb.penetration.value)
                                                                         : std::min(ma.penetration.value, mb.penetration.value);
    Body* a = makeBody(world, va, oa, (float)ta, ma);
    double t = s.boolean() ? M_PI / 4 * (double)s.integer(0, 7) : s.real(0, 6.3);
    D2     u{std::cos(t), std::sin(t)};
    double sa = support(worldOf(*a), u);
    // where b would touch
    double gap  = s.boolean() ? -s.real(0.02, 0.4) : s.pick({0.02, -0.001, -0.1, -0.2, -0.006, -1.0});
    double side = s.boolean() ? 0 : s.boolean() ? s.real(-0.5, 0.5) : s.real(-2, 2);
    Body*  b    = nullptr;
    {
        std::vector<D2> rb;
        D2              c = D2{Polygon{vb.begin(), vb.end()}.properties().centroid};
        for (Vec2 v : vb)
            rb.push_back(c + rot(D2(v) - c, tb));
        double sb = support(rb, -u);
        // project b's nearest point on u at sa + gap
        D2 ob = u * (sa + gap + sb) + perp(u) * (dot(D2(oa), perp(u)) + side);
        b     = makeBody(world, vb, toVec(ob), (float)tb, mb);
    }
    std::vector<D2> ha = hull(worldOf(*a)), hb = hull(worldOf(*b));
    // the shapes as they are in the world
    HullDistance r     = originTo(minkowskiDifference(ha, hb));
    double       depth = -r.signedDistance;
    double       scale = 6 + norm(oa) + norm(D2(b->position()));
    double       tol   = 2e-5 * scale;

    Collider& ca = const_cast<Collider&>(*a->colliders().begin());
    Collider& cb = const_cast<Collider&>(*b->colliders().begin());
    bool      swapped = s.boolean();
    Body*     bodies[2] = {swapped ? b : a, swapped ? a : b};
    const std::vector<D2>& h0 = swapped ? hb : ha;
    const std::vector<D2>& h1 = swapped ? ha : hb;
    ContactConstraint      contact{swapped ? cb : ca, swapped ? ca : cb};
    ContactInfo            info = contact.contactInfo();
    s.note("first ", str(va), " at ", a->position(), " turned ", ta, ", second ", str(vb), " at ", b->position(), " turned ", tb,
           swapped ? " (swapped)" : "", ", depth ", depth, ", tolerated ", minPen);

    PBT_CHECK(contact.colliders()[0]->body() == bodies[0] && contact.colliders()[1]->body() == bodies[1], "colliders of the contact");
    if (depth < minPen - tol)
    {
        PBT_CHECK(info.nContacts == 0, info.nContacts, " contacts at a depth of ", depth, " (", minPen, " is tolerated)");
        s.label(depth < 0 ? "apart" : "tolerated");
        return;
    }
    if (depth < minPen + tol)
        return;
    PBT_CHECK(info.nContacts == 1 || info.nContacts == 2, info.nContacts, " contacts at a depth of ", depth);
    D2 n = info.normal;
    PBT_CHECK(close(norm(n), 1, 1e-4), "normal ", n);
    // the normal points out of the second body: moving the first one along it is the smallest way out,
    // up to the deviation between an edge and the exact direction
    double out = support(h1, n) + support(h0, -n);
    // (two edges less than 1e-3 rad apart are equally good in single precision)
    PBT_CHECK(close(out, depth, 3 * tol + 1e-3 * 8), "along the normal ", n, " the shapes overlap by ", out, ", they do by ", depth, " at best");
    double deepest = 0;
    for (simu::Uint32 c = 0; c < info.nContacts; ++c)
    {
        D2 on0 = info.incContacts[c], on1 = info.refContacts[c];
        PBT_CHECK(distToBoundary(h0, on0) <= 3 * tol, "contact ", c, " ", on0, " is not on the boundary of the first body");
        PBT_CHECK(distToBoundary(h1, on1) <= 3 * tol, "contact ", c, " ", on1, " is not on the boundary of the second body");
        double pen = dot(n, on0 - on1);
        PBT_CHECK(pen <= 3 * tol, "contact ", c, " is not penetrating: ", pen);
        PBT_CHECK(-pen <= depth + 3 * tol, "contact ", c, " penetrates by ", -pen, ", more than ", depth);
        deepest = std::max(deepest, -pen);
    }
    // the deepest vertex is a contact, unless it already went through another side of the reference body
    bool through = false, flush = true;
    for (int ref = 0; ref < 2; ++ref)
    {
        const std::vector<D2>& hr  = ref == 0 ? h0 : h1;
        const std::vector<D2>& hi  = ref == 0 ? h1 : h0;
        D2                     nr  = ref == 0 ? -n : n;
        double                 off = 10;
        for (std::size_t i = 0; i < hr.size(); ++i)
        {
            D2 d = hr[(i + 1) % hr.size()] - hr[i];
            off  = std::min(off, norm(-perp(d) / norm(d) - nr));
        }
        if (off > 1e-3)
        {
            flush = false;
            continue;
        }
        D2 v = hi[0];
        for (D2 w : hi)
            if (dot(w, -nr) > dot(v, -nr))
                v = w;
        through = through || outside(hr, v) > 0;
    }
    s.labelIf(through && !flush, "deepest vertex went through");
    if (!through)
        PBT_CHECK(close(deepest, out, 3 * tol) && close(deepest, depth, 3 * tol + 1e-3 * 8), "the deepest contact is at ", deepest, ", the depth is ", depth);
    else if (flush)
        PBT_CHECK(close(deepest, depth, 3 * tol + 0.01), "the deepest contact is at ", deepest, ", the depth is ", depth, " (flush)");
    s.label(info.nContacts == 1 ? "one contact" : "two contacts");
    s.nontrivial();

}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C10",
         "Pairs of convex bodies (3 to 8 vertices) at any angle placed with a chosen gap or overlap along a chosen "
         "direction; the manifold of their contact against penetration depths and boundaries in double precision. "
         "Non-trivial: overlap above the tolerated penetration.",
         {"convex shapes"},
         {{"manifold", manifold, 600000, 12000000, 5}}}
    );
}
