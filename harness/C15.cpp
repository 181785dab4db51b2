// C15: combining the properties of two materials
// SOURCES: math physics
// FLAGS: san cov
#include "gen.hpp"

#include "Simu/physics.hpp"

using namespace simu;
using namespace gen;

namespace
{
typedef CombinableProperty P;

const char* names[] = {"average", "minimum", "multiply", "maximum"};

float value(Source& s)
{
    switch (s.weighted({4, 2, 1}))
    {
        case 0: return (float)s.real(0, 1);
        case 1: return (float)s.real(-10, 10);
        default: return anyFloat(s, 1e18f);
    }
}

void combine(Source& s)
{
    const P::Mode modes[] = {P::average, P::minimum, P::multiply, P::maximum};
    int           m1 = (int)s.index(4), m2 = (int)s.index(4);
    float         v1 = value(s), v2 = value(s);
    P             a{v1, modes[m1]}, b{v2, modes[m2]};
    P             c{a, b}, d{b, a};
    s.note(names[m1], " ", v1, " with ", names[m2], " ", v2, " is ", names[c.mode], " ", c.value);

    // average < minimum < multiply < maximum
    int m = std::max(m1, m2);
    PBT_CHECK(c.mode == modes[m], names[m1], " with ", names[m2], " gives the mode ", (int)c.mode);
    double want = m == 0 ? ((double)v1 + v2) / 2 : m == 1 ? std::min(v1, v2) : m == 2 ? (double)v1 * v2 : std::max(v1, v2);
    PBT_CHECK(close(c.value, want, 1e-6 * (std::abs(v1) + std::abs(v2) + std::abs(want)) + 1e-44), names[m], " of ", v1, " and ", v2, " is ", c.value, " instead of ", want);
    PBT_CHECK(c.mode == d.mode && c.value == d.value, "combination depends on the order");
    PBT_CHECK(P::combine(modes[m], v1, v2) == c.value, "static combine");
    P same{a, a};
    PBT_CHECK(same.mode == a.mode, "with itself");
    if (m1 != 2)
        PBT_CHECK(close(same.value, v1, 1e-6 * std::abs(v1)), "with itself");
    P plain{v1};
    PBT_CHECK(plain.value == v1 && plain.mode == P::average, "default mode");
    s.nontrivial(m1 != m2 && v1 != v2);
    s.label(names[m]);
}

// what a world does with materials: both friction and bounciness are combined
void colliders(Source& s)
{
    World                 w{};
    std::vector<Material> given;
    Body*                 b = w.makeBody(BodyDescriptor{});
    const P::Mode         modes[] = {P::average, P::minimum, P::multiply, P::maximum};
    long                  n = s.integer(1, 4);
    double                mass = 0;
    for (long i = 0; i < n; ++i)
    {
        Material m{};
        m.density     = (float)s.real(0.1, 10);
        m.bounciness  = P{(float)s.real(0, 1), modes[s.index(4)]};
        m.friction    = P{(float)s.real(0, 1), modes[s.index(4)]};
        m.penetration = P{(float)s.real(0.001, 0.1), modes[s.index(4)]};
        given.push_back(m);
        float     size = (float)s.real(0.5, 3);
        Polygon   p{Vertex{-size, -size}, Vertex{size, -size}, Vertex{size, size}, Vertex{-size, size}};
        Collider* c = b->addCollider(ColliderDescriptor{p, m});
        const Material& got = c->material();
        PBT_CHECK(got.density == m.density && got.bounciness.value == m.bounciness.value && got.bounciness.mode == m.bounciness.mode
                      && got.friction.value == m.friction.value && got.friction.mode == m.friction.mode
                      && got.penetration.value == m.penetration.value && got.penetration.mode == m.penetration.mode, "material of a collider");
        mass += (double)m.density * 4 * size * size;
        PBT_CHECK(close(c->properties().m, (double)m.density * 4 * size * size, 1e-5 * mass), "mass of a collider is ", c->properties().m);
    }
    PBT_CHECK(close(b->mass(), mass, 1e-5 * mass), "mass of a body is ", b->mass(), " instead of ", mass);
    // what a material is when nothing is said of it
    const Material d{};
    Polygon        square{Vertex{-1, -1}, Vertex{1, -1}, Vertex{1, 1}, Vertex{-1, 1}};
    for (const Material& m : {d, ColliderDescriptor{square}.material, b->addCollider(ColliderDescriptor{square})->material()})
    {
        PBT_CHECK(m.density == 1 && m.bounciness.value == 0 && m.friction.value == 0 && m.penetration.value == 0.005f, "default material");
        PBT_CHECK(m.bounciness.mode == P::average && m.friction.mode == P::average && m.penetration.mode == P::average, "modes of the default material");
    }
    s.nontrivial(n > 1);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C15",
         "Pairs of properties of any mode and value, and colliders of generated materials. Non-trivial: different modes "
         "and values, several colliders.",
         {},
         {{"combine", combine, 300000, 6000000, 5}, {"colliders", colliders, 20000, 400000, 5}}}
    );
}
