// C27: the camera
// SOURCES: math bbox camera
// FLAGS: san cov
#include "gen.hpp"

#include "Simu/app/Camera.hpp"

using namespace simu;
using namespace gen;

namespace
{

struct Model
{
    D2     center{}, view{2, 2};
    double zoom = 1, pixel = 0.1, moved = 0;

    D2 half() const { return view * (0.5 / zoom); }
};

D2 map(const Mat3& m, D2 p)
{
    double v[3];
    for (int i = 0; i < 3; ++i)
        v[i] = (double)m(i, 0) * p.x + (double)m(i, 1) * p.y + (double)m(i, 2);
    PBT_CHECK(v[2] == 1, "the transform is not affine");
    return {v[0], v[1]};
}

float sizeOf(Source& s)
{
    switch (s.weighted({5, 1, 1, 1}))
    {
        case 0: return (float)s.real(0.1, 2000);
        case 1: return 0;
        case 2: return (float)-s.real(0, 100);
        default: return (float)s.logUniform(1e-3, 1e5);
    }
}

void check(Source& s, const Camera& c, Model& m, bool& inside)
{
    PBT_CHECK(close(c.zoom(), m.zoom, 1e-6 * m.zoom), "the zoom is ", c.zoom(), " instead of ", m.zoom);
    PBT_CHECK(norm(D2(c.viewDimensions()) - m.view) <= 1e-6 * norm(m.view), "the view is ", c.viewDimensions(), " instead of ", m.view);
    PBT_CHECK(close(c.pixelSize(), m.pixel, 1e-6 * m.pixel), "the size of a pixel is ", c.pixelSize(), " instead of ", m.pixel);
    double slack = 1e-6 * m.moved;
    PBT_CHECK(norm(D2(c.center()) - m.center) <= slack, "the center is ", c.center(), " instead of ", m.center);
    // follow what was rounded
    m.center = D2(c.center());
    m.zoom   = c.zoom();
    m.view   = D2(c.viewDimensions());
    m.pixel  = c.pixelSize();

    Mat3 to = c.transform(), from = c.invTransform();
    D2   h = m.half();
    for (int i = 0; i < 4; ++i)
    {
        D2 u = i == 0   ? D2{0, 0}
               : i == 1 ? D2{s.boolean() ? 1. : -1., s.boolean() ? 1. : -1.}
               : i == 2 ? D2{s.real(-1, 1), s.real(-1, 1)}
                        : D2{s.real(-10, 10), s.real(-10, 10)};
        D2 p   = m.center + D2{u.x * h.x, u.y * h.y};
        D2 got = map(to, p);
        // single precision at the distance of the center
        double ex = 1e-6 * (1 + std::abs(u.x) + std::abs(m.center.x) / h.x), ey = 1e-6 * (1 + std::abs(u.y) + std::abs(m.center.y) / h.y);
        PBT_CHECK(std::abs(got.x - u.x) <= ex && std::abs(got.y - u.y) <= ey, "the point ", p, " is seen at ", got, " instead of ", u, " (center ", m.center, " half view ", h, ")");
        D2 back = map(from, u);
        PBT_CHECK(std::abs(back.x - p.x) <= ex * h.x && std::abs(back.y - p.y) <= ey * h.y, u, " of the screen shows ", back, " instead of ", p);
        inside = inside || (i == 2 && norm(m.center) > 0);
    }
}

void camera(Source& s)
{
    Camera c{};
    Model  m{};
    bool   inside = false, refused = false, big = false;
    check(s, c, m, inside);
    for (long n = s.size(1, 20); n > 0; --n)
    {
        switch (s.weighted({2, 2, 2, 2, 2, 2, 2, 2}))
        {
            case 0:
            {
                float z = s.chance(1, 5) ? (float)-s.real(0, 4) : (float)s.logUniform(0.01, 100);
                s.note("setZoom ", z);
                c.setZoom(z);
                if (z > 0)
                    m.zoom = z;
                else
                    refused = true;
                break;
            }
            case 1:
                if (m.zoom < 1000)
                {
                    s.note("zoomIn");
                    c.zoomIn();
                    m.zoom *= 1.25;
                }
                break;
            case 2:
                if (m.zoom > 0.001)
                {
                    s.note("zoomOut");
                    c.zoomOut();
                    m.zoom *= 0.8;
                }
                break;
            case 3:
            {
                Vec2 o = vec(s, s.chance(1, 4) ? 1000 : 10);
                s.note("pan ", o);
                m.moved = norm(m.center) + norm(D2(o));
                c.pan(o);
                m.center += D2(o);
                break;
            }
            case 4:
            {
                Vec2 o = vec(s, s.chance(1, 4) ? 1000 : 10);
                s.note("panTo ", o);
                m.moved = norm(m.center) + norm(D2(o));
                c.panTo(o);
                m.center = D2(o);
                break;
            }
            case 5:
            {
                Vec2 d{sizeOf(s), sizeOf(s)};
                s.note("setViewDimensions ", d);
                c.setViewDimensions(d);
                if (d[0] > 0 && d[1] > 0)
                    m.view = D2(d);
                else
                    refused = true;
                break;
            }
            case 6:
            {
                Vec2 d{(float)s.integer(0, 3000), (float)s.integer(0, 3000)};
                s.note("setDimensionsFromScreenCoordinates ", d);
                c.setDimensionsFromScreenCoordinates(d);
                if (d[0] > 0 && d[1] > 0)
                    m.view = D2(d) * m.pixel, big = true;
                else
                    refused = true;
                break;
            }
            default:
            {
                float p = (float)s.logUniform(0.001, 10);
                s.note("setPixelSize ", p);
                c.setPixelSize(p);
                m.pixel = p;
            }
        }
        check(s, c, m, inside);
    }
    s.labelIf(refused, "refused");
    s.labelIf(big, "window");
    s.nontrivial(inside);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C27",
         "Up to 20 changes of the camera (zooms, pans, dimensions in scene units or pixels, sizes of pixels, valid or not), "
         "after each of which the view and both transforms are compared with a model in double precision at the center, a "
         "corner, inside and outside of the view. Non-trivial: points compared away from the origin.",
         {},
         {{"camera", camera, 40000, 1500000, 10}}}
    );
}
