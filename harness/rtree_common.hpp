#pragma once
#include "gen.hpp"

#include "Simu/physics/RTree.hpp"

#include <map>
#include <set>

using namespace simu;
using namespace gen;

inline long liveBytes = 0;
inline long liveValues = 0;

template <class T>
struct CountingAlloc
{
    typedef T value_type;
    CountingAlloc() = default;
    template <class U>
    CountingAlloc(const CountingAlloc<U>&)
    {
    }
    T* allocate(std::size_t n)
    {
        liveBytes += (long)(n * sizeof(T));
        return static_cast<T*>(::operator new(n * sizeof(T)));
    }
    void deallocate(T* p, std::size_t n)
    {
        liveBytes -= (long)(n * sizeof(T));
        ::operator delete(p);
    }
    template <class U>
    bool operator==(const CountingAlloc<U>&) const
    {
        return true;
    }
};

struct Value
{
    explicit Value(int i, int e = 0) : id{i}, extra{e} { ++liveValues; }
    Value(const Value& o) : id{o.id}, extra{o.extra} { ++liveValues; }
    ~Value()
    {
        --liveValues;
        id = -77;
    }
    int id;
    int extra;
};

typedef RTree<Value, CountingAlloc<Value>> Tree;

struct Item
{
    int            id;
    BoundingBox    box;
    Tree::iterator it;
};

inline std::string show(const BoundingBox& b) { return pbt::cat(b.min(), "-", b.max()); }

inline bool refOverlap(const BoundingBox& a, const BoundingBox& b)
{
    for (int k = 0; k < 2; ++k)
    {
        if (a.min()[k] > a.max()[k] || b.min()[k] > b.max()[k])
            return false;
        if (a.min()[k] > b.max()[k] || b.min()[k] > a.max()[k])
            return false;
    }
    return true;
}

inline bool same(const BoundingBox& a, const BoundingBox& b)
{
    bool va = a.min()[0] <= a.max()[0] && a.min()[1] <= a.max()[1];
    bool vb = b.min()[0] <= b.max()[0] && b.min()[1] <= b.max()[1];
    if (!va && !vb)
        return true;
    for (int k = 0; k < 2; ++k)
        if (a.min()[k] != b.min()[k] || a.max()[k] != b.max()[k])
            return false;
    return true;
}

inline BoundingBox cover(const std::vector<Item>& items)
{
    BoundingBox c{};
    bool        any = false;
    float       lo[2] = {0, 0}, hi[2] = {0, 0};
    for (const Item& i : items)
    {
        auto mn = i.box.min(), mx = i.box.max();
        if (mn[0] > mx[0] || mn[1] > mx[1])
            continue;
        for (int k = 0; k < 2; ++k)
        {
            lo[k] = any ? std::min(lo[k], mn[k]) : mn[k];
            hi[k] = any ? std::max(hi[k], mx[k]) : mx[k];
        }
        any = true;
    }
    return any ? BoundingBox{Vec2{lo[0], lo[1]}, Vec2{hi[0], hi[1]}} : c;
}

// How boxes of a case are laid out
struct Layout
{
    int   kind = 0;
    float spread = 8, extent = 2;

    explicit Layout(Source& s)
    {
        kind   = (int)s.weighted({5, 2, 2, 2, 1});
        spread = s.pick({8.f, 2.f, 30.f, 100.f});
        extent = s.pick({2.f, 0.5f, 6.f, 20.f});
    }

    BoundingBox box(Source& s) const
    {
        float x, y, w, h;
        switch (kind)
        {
            case 0: // integer grid: many touching boxes
                x = (float)s.integer(-(long)spread, (long)spread);
                y = (float)s.integer(-(long)spread, (long)spread);
                w = (float)s.integer(0, 3);
                h = (float)s.integer(0, 3);
                break;
            case 1: // arbitrary reals
                x = s.f(-spread, spread);
                y = s.f(-spread, spread);
                w = (float)s.uniform(0, extent);
                h = (float)s.uniform(0, extent);
                break;
            case 2: // a row
                x = (float)s.integer(-(long)spread, (long)spread);
                y = 0;
                w = h = s.pick({1.f, 0.9f, 1.1f});
                break;
            case 3: // concentric
                w = h = (float)s.integer(0, 20);
                x = y = -w / 2;
                break;
            default: // wildly different magnitudes
                x = anyFloat(s, 1e30f);
                y = anyFloat(s, 1e30f);
                w = std::abs(anyFloat(s, 1e30f));
                h = std::abs(anyFloat(s, 1e30f));
        }
        if (s.weighted({30, 1}) == 1)
            return BoundingBox{};
        return BoundingBox{Vec2{x, y}, Vec2{x + w, y + h}};
    }
};
