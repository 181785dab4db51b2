// Generators and double-precision helpers shared by the harnesses.
#pragma once

#include "pbt.hpp"

#include "Simu/config.hpp"
#include "Simu/math/Matrix.hpp"

#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <ostream>

namespace simu
{
template <class T, Uint32 m, Uint32 n>
std::ostream& operator<<(std::ostream& os, const Matrix<T, m, n>& mat)
{
    os << '{';
    for (Uint32 i = 0; i < m * n; ++i)
        os << (i ? ", " : "") << mat[i];
    return os << '}';
}
} // namespace simu

namespace gen
{
using pbt::Source;
using simu::Vec2;

struct D2
{
    double x = 0, y = 0;

    D2() = default;
    D2(double x_, double y_) : x{x_}, y{y_} {}
    D2(Vec2 v) : x{v[0]}, y{v[1]} {}

    D2 operator+(D2 o) const { return {x + o.x, y + o.y}; }
    D2 operator-(D2 o) const { return {x - o.x, y - o.y}; }
    D2 operator-() const { return {-x, -y}; }
    D2 operator*(double s) const { return {x * s, y * s}; }
    D2 operator/(double s) const { return {x / s, y / s}; }
    D2& operator+=(D2 o) { return *this = *this + o; }
};
inline D2     operator*(double s, D2 v) { return v * s; }
inline double dot(D2 a, D2 b) { return a.x * b.x + a.y * b.y; }
inline double cross(D2 a, D2 b) { return a.x * b.y - a.y * b.x; }
inline double norm(D2 a) { return std::hypot(a.x, a.y); }
inline D2     perp(D2 a) { return {-a.y, a.x}; }
inline D2     rot(D2 a, double t)
{
    return {std::cos(t) * a.x - std::sin(t) * a.y, std::sin(t) * a.x + std::cos(t) * a.y};
}
inline Vec2 toVec(D2 a) { return Vec2{(float)a.x, (float)a.y}; }
inline std::ostream& operator<<(std::ostream& os, D2 v)
{
    return os << '{' << v.x << ", " << v.y << '}';
}

inline bool finite(Vec2 v) { return std::isfinite(v[0]) && std::isfinite(v[1]); }

// any finite float, simple ones first
inline float anyFloat(Source& s, float limit = 3e38f)
{
    switch (s.weighted({5, 3, 3, 2, 1, 1}))
    {
        case 0: return (float)s.real(-8, 8);
        case 1: return (float)s.real(-1000, 1000);
        case 2:
        {
            float v = (float)s.logUniform(1e-30, std::min(1e30, (double)limit));
            return s.boolean() ? -v : v;
        }
        case 3:
        {
            // neighbours of a simple number
            float v = (float)s.integer(-4, 4);
            return std::nextafter(v, s.boolean() ? 100.f : -100.f);
        }
        case 4: return s.boolean() ? -limit : limit;
        default: return s.boolean() ? -0.f : std::numeric_limits<float>::denorm_min();
    }
}

inline Vec2 vec(Source& s, double lim) { return Vec2{s.f((float)-lim, (float)lim), s.f((float)-lim, (float)lim)}; }

// a reference convex hull (counter-clockwise, strictly convex)
inline std::vector<D2> hull(std::vector<D2> p)
{
    std::sort(p.begin(), p.end(), [](D2 a, D2 b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
    p.erase(
        std::unique(p.begin(), p.end(), [](D2 a, D2 b) { return a.x == b.x && a.y == b.y; }),
        p.end()
    );
    if (p.size() < 3)
        return p;
    std::vector<D2> h(2 * p.size());
    std::size_t     k = 0;
    for (std::size_t i = 0; i < p.size(); ++i)
    {
        while (k >= 2 && cross(h[k - 1] - h[k - 2], p[i] - h[k - 1]) <= 0)
            --k;
        h[k++] = p[i];
    }
    for (std::size_t i = p.size() - 1, t = k + 1; i-- > 0;)
    {
        while (k >= t && cross(h[k - 1] - h[k - 2], p[i] - h[k - 1]) <= 0)
            --k;
        h[k++] = p[i];
    }
    h.resize(k - 1);
    return h;
}

inline double polyArea(const std::vector<D2>& v)
{
    double a = 0;
    for (std::size_t i = 0; i < v.size(); ++i)
        a += cross(v[i], v[(i + 1) % v.size()]);
    return a / 2;
}

inline double polyRadius(const std::vector<D2>& v)
{
    double r = 0;
    for (D2 p : v)
        r = std::max(r, norm(p));
    return r;
}

// A well-conditioned convex polygon around the origin as float vertices, CCW.
// minAngleGap keeps consecutive vertices apart.
inline std::vector<Vec2> convexAround(Source& s, double minSize = 0.25, double maxSize = 4)
{
    std::vector<Vec2> v;
    double            size = s.real(minSize, maxSize);
    switch (s.weighted({3, 2, 3, 2}))
    {
        case 0: // box
        {
            double w = size, h = s.boolean() ? size : s.real(minSize, maxSize);
            v = {
                Vec2{(float)(-w / 2), (float)(-h / 2)},
                Vec2{(float)(w / 2), (float)(-h / 2)},
                Vec2{(float)(w / 2), (float)(h / 2)},
                Vec2{(float)(-w / 2), (float)(h / 2)}};
            break;
        }
        case 1: // regular n-gon
        {
            long   n   = s.integer(3, 8);
            double off = s.real(0, 1);
            for (long i = 0; i < n; ++i)
            {
                double t = off + 2 * M_PI * (double)i / (double)n;
                v.push_back(Vec2{(float)(size * std::cos(t)), (float)(size * std::sin(t))});
            }
            break;
        }
        case 2: // points on an ellipse at spread-out angles: always convex
        {
            long   n = s.integer(3, 7);
            double b = size * s.real(0.5, 1);
            for (long i = 0; i < n; ++i)
            {
                double t = 2 * M_PI * ((double)i + 0.6 * s.uniform(0, 1)) / (double)n;
                v.push_back(Vec2{(float)(size * std::cos(t)), (float)(b * std::sin(t))});
            }
            break;
        }
        default: // triangle
        {
            double w = size, h = s.real(minSize, maxSize);
            double k = s.real(-0.5, 0.5) * w;
            v        = {
                Vec2{(float)(-w / 2), (float)(-h / 3)},
                Vec2{(float)(w / 2), (float)(-h / 3)},
                Vec2{(float)k, (float)(2 * h / 3)}};
        }
    }
    return v;
}

inline std::vector<D2> asD(const std::vector<Vec2>& v)
{
    std::vector<D2> r;
    for (Vec2 p : v)
        r.push_back(p);
    return r;
}

inline std::string str(const std::vector<Vec2>& v)
{
    std::ostringstream ss;
    ss.precision(9);
    ss << '[';
    for (std::size_t i = 0; i < v.size(); ++i)
        ss << (i ? ", " : "") << v[i];
    ss << ']';
    return ss.str();
}

inline bool close(double a, double b, double tol) { return std::abs(a - b) <= tol; }

} // namespace gen
