// C28: what is drawn reaches the screen
// SOURCES: math physics app
// FLAGS: san cov fake
#include "gen.hpp"

#include "Simu/app.hpp"

#include "glbinding/gl33core/gl.h"

using namespace simu;
using namespace gen;

namespace
{

typedef std::array<int, 4> Color;

// what a shape covers: 1 inside, 0 outside, -1 too close to tell
struct Shape
{
    std::vector<D2> poly{};  // covered
    D2              center{};
    double          sure = 0, reach = 0; // disc when poly is empty
    Color           color{};
    std::array<float, 9> camera{};

    int covers(D2 p, double tol) const
    {
        if (poly.empty())
        {
            double d = norm(p - center);
            return d < sure - tol ? 1 : d > reach + tol ? 0 : -1;
        }
        bool in = false;
        for (std::size_t i = 0; i < poly.size(); ++i)
        {
            D2     a = poly[i], b = poly[(i + 1) % poly.size()], e = b - a;
            double l = dot(e, e), t = l > 0 ? std::clamp(dot(p - a, e) / l, 0., 1.) : 0;
            if (norm(p - (a + e * t)) < tol)
                return -1;
            if ((a.y > p.y) != (b.y > p.y) && p.x < a.x + (p.y - a.y) / (b.y - a.y) * (b.x - a.x))
                in = !in;
        }
        return in;
    }
};

int covers(const gl::Triangle& t, D2 p, double tol)
{
    D2     v[3];
    double min = 1e300;
    for (int k = 0; k < 3; ++k)
        v[k] = {t.pos[k][0], t.pos[k][1]};
    double turn = cross(v[1] - v[0], v[2] - v[0]) < 0 ? -1 : 1;
    bool   in   = true;
    for (int k = 0; k < 3; ++k)
    {
        D2     a = v[k], e = v[(k + 1) % 3] - a;
        double l = dot(e, e), s = l > 0 ? std::clamp(dot(p - a, e) / l, 0., 1.) : 0;
        min      = std::min(min, norm(p - (a + e * s)));
        in       = in && turn * cross(e, p - a) > 0;
    }
    return min < tol ? -1 : in;
}

struct Machine
{
    Source&                         s;
    std::unique_ptr<OpenGlRenderer> r;
    std::vector<Shape>              shapes{};
    double                          width = 1, radius = 1;
    unsigned                        precision = 12;
    Mat3                            camera = Mat3::identity();
    long                            vertices = 0, most = 0;
    bool                            overlaps = false, split = false;

    explicit Machine(Source& src) : s{src}
    {
        gl::state = {};
        r         = std::make_unique<OpenGlRenderer>();
        PBT_CHECK(r->getLineWidth() == 1 && r->getPointRadius() == 1 && r->getPointPrecision() == 12, "the default line width, point radius or precision is another");
        setCamera();
    }

    void setCamera()
    {
        camera = Mat3{(float)s.real(-2, 2), (float)s.real(-2, 2), (float)s.real(-2, 2), (float)s.real(-2, 2), (float)s.real(-2, 2), (float)s.real(-2, 2), 0, 0, 1};
        r->setCameraTransform(camera);
        for (int i = 0; i < 9; ++i)
            PBT_CHECK(r->cameraTransform().data[i] == camera.data[i], "the camera is another");
    }

    Rgba color(Color& c)
    {
        for (int& x : c)
            x = (int)s.integer(0, 255);
        return Rgba{(Uint8)c[0], (Uint8)c[1], (Uint8)c[2], (Uint8)c[3]};
    }

    void add(Shape sh, long n)
    {
        for (int i = 0; i < 9; ++i)
            sh.camera[i] = camera.data[i];
        shapes.push_back(sh);
        vertices += n;
        most = std::max(most, n);
    }

    Vec2 place() { return vec(s, s.chance(1, 4) ? 30 : 3); }

    static void move(std::vector<Vec2>& v, Vec2 by)
    {
        for (Vec2& p : v)
            p += by;
    }

    static Renderer::Poly view(const std::vector<Vec2>& v) { return makeView(v.data(), v.data() + v.size()); }

    void polygon()
    {
        // star-shaped about the place
        std::vector<Vec2> v;
        Vec2              c = place();
        Vec2 inside{};
        if (s.boolean())
        {
            v = convexAround(s);
            for (Vec2 p : v)
                inside += p / (float)v.size();
        }
        else
        {
            long n = s.chance(1, 8) ? s.integer(100, 1500) : s.integer(5, 12);
            for (long i = 0; i < n; ++i)
            {
                double t = 2 * M_PI * (double)i / (double)n, l = n > 50 ? 2 : s.real(0.5, 3);
                v.push_back(Vec2{(float)(l * std::cos(t)), (float)(l * std::sin(t))});
            }
        }
        move(v, c);
        c += inside;
        Shape sh;
        Rgba  col = color(sh.color);
        s.note("drawPolygon ", c, " ", v.size() > 20 ? "..." : str(v), " color ", sh.color[0], ' ', sh.color[1], ' ', sh.color[2], ' ', sh.color[3]);
        r->drawPolygon(c, view(v), col);
        sh.poly = asD(v);
        add(sh, (long)v.size() + 1);
    }

    void triangle()
    {
        Vec2 c = place(), t[3];
        double off = s.real(0, 6);
        for (int k = 0; k < 3; ++k)
        {
            double a = off + 2.0943951 * k + s.real(-0.5, 0.5), l = s.real(0.5, 3);
            t[k]     = c + Vec2{(float)(l * std::cos(a)), (float)(l * std::sin(a))};
        }
        if (s.boolean())
            std::swap(t[0], t[1]);
        Shape sh;
        Rgba  col = color(sh.color);
        s.note("drawTriangle ", t[0], t[1], t[2]);
        r->drawTriangle(t[0], t[1], t[2], col);
        sh.poly = {D2(t[0]), D2(t[1]), D2(t[2])};
        add(sh, 4);
    }

    void line()
    {
        Vec2 a = place(), b = a + vec(s, 5);
        if (norm(D2(a) - D2(b)) < 0.05)
            return;
        Shape sh;
        Rgba  col = color(sh.color);
        s.note("drawLine ", a, b, " width ", width);
        r->drawLine(a, b, col);
        D2 n    = perp(D2(b) - D2(a));
        n       = n / norm(n) * (width / 2);
        sh.poly = {D2(a) + n, D2(a) - n, D2(b) - n, D2(b) + n};
        add(sh, 5);
    }

    void point()
    {
        Vec2  p = place();
        Shape sh;
        Rgba  col = color(sh.color);
        s.note("drawPoint ", p, " radius ", radius, " precision ", precision);
        r->drawPoint(p, col);
        sh.center = D2(p);
        sh.sure   = radius * std::cos(M_PI / precision);
        sh.reach  = radius;
        add(sh, precision + 1);
    }

    void contour()
    {
        std::vector<Vec2> v = convexAround(s, 0.5);
        Vec2              c{}, at = place();
        move(v, at);
        for (Vec2 p : v)
            c += p / (float)v.size();
        double w = s.real(0.05, 1);
        Shape  in, out;
        Rgba   ci = color(in.color), co = color(out.color);
        s.note("drawContouredPolygon ", c, " ", str(v), " width ", w);
        r->drawContouredPolygon(c, view(v), ci, co, (float)w);
        in.poly       = asD(v);
        std::size_t n = v.size();
        for (std::size_t i = 0; i < n; ++i)
        {
            // where the lines of both edges meet once moved out
            D2 e0 = D2(v[i]) - D2(v[(i + n - 1) % n]), e1 = D2(v[(i + 1) % n]) - D2(v[i]);
            D2 n0 = D2{e0.y, -e0.x} / norm(e0), n1 = D2{e1.y, -e1.x} / norm(e1);
            out.poly.push_back(D2(v[i]) + (n0 + n1) * (w / (1 + dot(n0, n1))));
        }
        add(out, (long)n + 1);
        add(in, (long)n + 1);
    }

    void draw()
    {
        switch (s.weighted({4, 2, 3, 3, 2, 1, 1, 1}))
        {
            case 0: polygon(); break;
            case 1: triangle(); break;
            case 2: line(); break;
            case 3: point(); break;
            case 4: contour(); break;
            case 5:
                width = s.f(0.05f, 2);
                r->setLineWidth((float)width);
                break;
            case 6:
                radius = s.f(0.05f, 2);
                r->setPointRadius((float)radius);
                break;
            default:
            {
                long n = s.chance(1, 4) ? s.integer(0, 2) : s.chance(1, 4) ? s.integer(100, 600) : s.integer(3, 40);
                s.note("setPointPrecision ", n);
                r->setPointPrecision((Uint32)n);
                if (n >= 3)
                    precision = (unsigned)n;
            }
        }
        PBT_CHECK(r->getLineWidth() == (float)width && r->getPointRadius() == (float)radius && r->getPointPrecision() == precision, "a setting is ", r->getLineWidth(), ' ', r->getPointRadius(), ' ',
                  r->getPointPrecision(), " instead of ", width, ' ', radius, ' ', precision);
    }

    void probe(D2 p)
    {
        const double       tol = 2e-3;
        std::vector<const Shape*> want;
        for (const Shape& sh : shapes)
        {
            int c = sh.covers(p, tol);
            if (c < 0)
                return;
            if (c)
                want.push_back(&sh);
        }
        std::vector<const gl::Triangle*> got;
        for (const gl::Triangle& t : gl::state.triangles)
        {
            int c = covers(t, p, 1e-5);
            if (c < 0)
                return;
            if (c)
                got.push_back(&t);
        }
        PBT_CHECK(got.size() == want.size(), got.size(), " triangles cover ", p, " instead of ", want.size());
        overlaps = overlaps || want.size() > 1;
        for (std::size_t i = 0; i < got.size(); ++i)
        {
            for (int k = 0; k < 3; ++k)
                for (int j = 0; j < 4; ++j)
                    PBT_CHECK(got[i]->color[k][j] == want[i]->color[j], "the color ", j, " at ", p, " is ", (int)got[i]->color[k][j], " instead of ", want[i]->color[j], " (layer ", i, " of ", got.size(), ")");
            for (int k = 0; k < 9; ++k)
                PBT_CHECK(got[i]->camera[k] == want[i]->camera[k], "a triangle is drawn with another camera");
        }
    }

    void frame()
    {
        Color cc{};
        Rgba  clear = color(cc);
        r->fillScreen(clear);
        PBT_CHECK(gl::state.triangles.empty() && gl::state.clears > 0, "the screen is not cleared");
        for (int k = 0; k < 4; ++k)
            PBT_CHECK(close(gl::state.clearColor[k], cc[k] / 255., 1e-6), "the screen is filled with another color");
        shapes.clear();
        vertices = most = 0;
        int  before = gl::state.draws;
        long n      = s.size(1, 60);
        for (long i = 0; i < n; ++i)
        {
            draw();
            if (s.chance(1, 10))
            {
                r->flush();
                if (s.boolean())
                    setCamera();
            }
        }
        r->flush();
        split = split || (vertices > 1100 && gl::state.draws > before + 1);
        PBT_CHECK(gl::state.error.empty(), gl::state.error);
        std::size_t drawn = gl::state.triangles.size();
        r->flush();
        PBT_CHECK(gl::state.triangles.size() == drawn, "a flush draws again what was drawn");
        for (std::size_t i = 0; i < shapes.size(); ++i)
        {
            const Shape& sh = shapes[i];
            for (int k = 0; k < (shapes.size() > 20 ? 2 : 6); ++k)
            {
                if (sh.poly.empty())
                {
                    double a = s.uniform(0, 6.3), l = s.uniform(0, 1.2) * sh.reach;
                    probe(sh.center + D2{l * std::cos(a), l * std::sin(a)});
                    continue;
                }
                // around an edge, or anywhere inside
                std::size_t e = s.index(sh.poly.size());
                D2          a = sh.poly[e], b = sh.poly[(e + 1) % sh.poly.size()], mid = a + (b - a) * s.uniform(0, 1);
                D2          c{};
                for (D2 v : sh.poly)
                    c += v / (double)sh.poly.size();
                probe(s.boolean() ? mid + D2{s.uniform(-0.05, 0.05), s.uniform(-0.05, 0.05)} : c + (mid - c) * s.uniform(0, 1.3));
            }
        }
    }
};

void renderer(Source& s)
{
    bool overlaps, split;
    {
        Machine m{s};
        for (long n = s.size(1, 3); n > 0; --n)
        {
            m.frame();
            if (s.chance(1, 3))
            {
                Vec2i a{(Int32)s.integer(0, 100), (Int32)s.integer(0, 100)}, b{(Int32)s.integer(0, 1000), (Int32)s.integer(0, 1000)};
                m.r->setViewport(a, b);
                PBT_CHECK(gl::state.viewport[0] == a[0] && gl::state.viewport[1] == a[1] && gl::state.viewport[2] == b[0] && gl::state.viewport[3] == b[1], "the viewport is another");
            }
        }
        overlaps = m.overlaps;
        split    = m.split;
    }
    PBT_CHECK(gl::state.programs.empty() && gl::state.arrays.size() <= 1 && gl::state.buffers.empty(), "objects of OpenGL outlive the renderer");
    PBT_CHECK(gl::state.blend, "colors are not blended");
    s.labelIf(split, "several batches");
    s.nontrivial(overlaps);
}

// tens of thousands of vertices in one frame, one shape per cell of a grid
void many(Source& s)
{
    gl::state = {};
    OpenGlRenderer r;
    r.setCameraTransform(Mat3::identity());
    struct Cell
    {
        double area, reach, tol;
        Color  color;
        D2     center;
        double sum = 0;
    };
    std::vector<Cell> cells;
    unsigned          seed  = (unsigned)s.integer(0, 1000000);
    auto              next  = [&](unsigned n) { return (seed = seed * 1664525u + 1013904223u, (seed >> 8) % n); };
    long              total = 0, want = s.chance(1, 3) ? s.integer(1000, 60000) : s.integer(65000, 140000);
    int               mode  = (int)s.integer(0, 3);
    bool              large = false;
    s.note("about ", want, " vertices, mode ", mode, " seed ", seed);
    while (total < want)
    {
        D2   at{(double)(8 * (cells.size() % 50)), (double)(8 * (cells.size() / 50))};
        Vec2 c{(float)at.x, (float)at.y};
        Cell cell{};
        cell.center = at;
        for (int k = 0; k < 4; ++k)
            cell.color[k] = (int)next(256);
        Rgba col{(Uint8)cell.color[0], (Uint8)cell.color[1], (Uint8)cell.color[2], (Uint8)cell.color[3]};
        // small shapes, or some of any size, up to a single one
        long n = mode == 0 ? 4 : mode == 1 ? 3 + (long)next(60) : next(mode == 2 ? 30 : 4) == 0 ? (long)(1000 + next((unsigned)want)) : 3 + (long)next(300);
        large  = large || n > 65000;
        auto around = [&](long k, double l) { return l * l * std::sin(2 * M_PI / (double)k) * (double)k / 2; };
        switch (mode == 0 ? 1 + next(2) : next(3))
        {
            case 0:
                r.setPointRadius(2);
                r.setPointPrecision((Uint32)n);
                r.drawPoint(c, col);
                cell.area  = around(n, 2);
                cell.reach = 2;
                total += n + 1;
                break;
            case 1:
                r.setLineWidth(1);
                r.drawLine(c - Vec2{1, 0}, c + Vec2{1, 0}, col);
                cell.area  = 2;
                cell.reach = 1.2;
                total += 5;
                break;
            default:
            {
                std::vector<Vec2> v;
                for (long i = 0; i < n; ++i)
                {
                    double t = 2 * M_PI * (double)i / (double)n;
                    v.push_back(c + Vec2{(float)(3 * std::cos(t)), (float)(3 * std::sin(t))});
                }
                r.drawPolygon(c, Machine::view(v), col);
                cell.area  = around(n, 3);
                cell.reach = 3;
                total += n + 1;
            }
        }
        // points are turned step by step, in single precision
        cell.tol = 1e-3 + 1e-6 * norm(at) + 1.2e-7 * (double)n * cell.reach;
        cells.push_back(cell);
    }
    r.flush();
    PBT_CHECK(gl::state.error.empty(), gl::state.error);
    std::size_t last = 0;
    for (const gl::Triangle& t : gl::state.triangles)
    {
        D2 v[3];
        for (int k = 0; k < 3; ++k)
            v[k] = {t.pos[k][0], t.pos[k][1]};
        long column = std::lround((v[0].x + v[1].x + v[2].x) / 24), row = std::lround((v[0].y + v[1].y + v[2].y) / 24);
        std::size_t i = (std::size_t)(column + 50 * row);
        PBT_CHECK(column >= 0 && column < 50 && row >= 0 && i < cells.size(), "a triangle ", v[0], v[1], v[2], " is where nothing was drawn");
        PBT_CHECK(i >= last, "shape ", i, " is drawn after shape ", last);
        last    = i;
        Cell& c = cells[i];
        c.sum += cross(v[1] - v[0], v[2] - v[0]) / 2;
        for (int k = 0; k < 3; ++k)
        {
            PBT_CHECK(norm(v[k] - c.center) <= c.reach + c.tol, "a triangle of shape ", i, " of ", cells.size(), " reaches ", v[k]);
            for (int j = 0; j < 4; ++j)
                PBT_CHECK(t.color[k][j] == c.color[j], "the color of shape ", i, " of ", cells.size());
        }
    }
    for (std::size_t i = 0; i < cells.size(); ++i)
        PBT_CHECK(close(std::abs(cells[i].sum), cells[i].area, 2e-3 * cells[i].area + 6 * cells[i].tol), "shape ", i, " of ", cells.size(), " covers ", cells[i].sum, " instead of ", cells[i].area);
    s.labelIf(large, "a shape of more than 65000 vertices");
    s.labelIf(cells.size() == 1, "a single shape");
    s.nontrivial(total > 65536);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C28",
         "Frames of up to 60 shapes (star-shaped polygons of up to 1500 vertices, triangles, lines, points, contours, of any "
         "width, precision, color and camera) drawn by the OpenGL renderer on a stand-in for OpenGL that keeps the triangles; "
         "points inside, outside and around the borders of the shapes must be covered by one triangle for each shape that "
         "covers them, in order. many: frames of up to 140000 vertices, in small shapes or a few large ones, each of which must be "
         "covered by its own triangles. Non-trivial: points covered by several shapes, more than 65536 vertices.",
         {"OpenGL itself and the shaders are replaced by a stand-in"},
         {{"renderer", renderer, 4000, 200000, 20}, {"many", many, 250, 8000, 40}}}
    );
}
