// Reference solution of one constraint between two bodies, in double precision.
#pragma once
#include "world_common.hpp"

typedef std::array<double, 6> D6;

struct Rows
{
    std::vector<D6>     J{};
    std::vector<double> b{}; // J v = b
};

// dense symmetric system by elimination with pivoting; empty if singular
inline std::vector<double> solveDense(std::vector<std::vector<double>> A, std::vector<double> b)
{
    std::size_t n = b.size();
    for (std::size_t c = 0; c < n; ++c)
    {
        std::size_t p = c;
        for (std::size_t r = c + 1; r < n; ++r)
            if (std::abs(A[r][c]) > std::abs(A[p][c]))
                p = r;
        if (A[p][c] == 0)
            return {};
        std::swap(A[p], A[c]);
        std::swap(b[p], b[c]);
        for (std::size_t r = 0; r < n; ++r)
            if (r != c)
            {
                double f = A[r][c] / A[c][c];
                for (std::size_t k = c; k < n; ++k)
                    A[r][k] -= f * A[c][k];
                b[r] -= f * b[c];
            }
    }
    for (std::size_t i = 0; i < n; ++i)
        b[i] /= A[i][i];
    return b;
}

inline double dot6(const D6& a, const D6& b)
{
    double r = 0;
    for (int i = 0; i < 6; ++i)
        r += a[i] * b[i];
    return r;
}

// v + W Jt l such that J v+ + soft l = b
inline D6 project(const Rows& rows, const D6& W, const D6& v, double soft = 0)
{
    std::size_t                      n = rows.J.size();
    std::vector<std::vector<double>> K(n, std::vector<double>(n));
    std::vector<double>              rhs(n);
    for (std::size_t i = 0; i < n; ++i)
    {
        for (std::size_t j = 0; j < n; ++j)
            for (int k = 0; k < 6; ++k)
                K[i][j] += rows.J[i][k] * W[k] * rows.J[j][k];
        K[i][i] += soft;
        rhs[i] = rows.b[i] - dot6(rows.J[i], v);
    }
    auto l = solveDense(K, rhs);
    D6   r = v;
    for (std::size_t i = 0; i < l.size(); ++i)
        for (int k = 0; k < 6; ++k)
            r[k] += W[k] * rows.J[i][k] * l[i];
    return r;
}

inline D6 velocities(const Body* a, const Body* b)
{
    return {a->velocity()[0], a->velocity()[1], a->angularVelocity(), b->velocity()[0], b->velocity()[1], b->angularVelocity()};
}

// where a body is, and where its points go
struct Pose
{
    D2     p{}, lc{};
    double theta = 0;
    explicit Pose(const Body* b) : p{D2(b->position())}, lc{D2(b->localCentroid())}, theta{b->orientation()} {}
    D2     centroid() const { return p + lc; }
    D2     operator()(D2 local) const { return p + lc + rot(local - lc, theta); }
    D2     local(D2 world) const { return lc + rot(world - p - lc, -theta); }
};
