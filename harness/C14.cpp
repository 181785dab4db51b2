// C14: views, partitions, random numbers and profiler statistics
// SOURCES: math physics
// FLAGS: san cov
#include "world_common.hpp"

#include "Simu/math/Random.hpp"
#include "Simu/physics/Profiler.hpp"
#include "Simu/utility/Algo.hpp"
#include "Simu/utility/Memory.hpp"
#include "Simu/utility/View.hpp"

#include <deque>
#include <list>
#include <memory>
#include <thread>

using namespace simu;
using namespace gen;

namespace
{

struct PairKey
{
    template <class P>
    auto& operator()(P& p) const
    {
        return p.second;
    }
};

template <class C>
void viewsOf(Source& s, C container)
{
    std::vector<int> model;
    for (auto& p : container)
        model.push_back(*p);

    auto check = [&](auto view, const std::vector<int>& m, const char* what) {
        std::vector<int> got;
        for (const int& i : view)
            got.push_back(i);
        PBT_CHECK(got == m, what, ": wrong elements");
        PBT_CHECK(view.empty() == m.empty(), what, ": empty()");
        PBT_CHECK((std::size_t)std::distance(view.begin(), view.end()) == m.size(), what, ": distance");
        std::size_t k = 0;
        for (auto it = view.begin(); it != view.end(); it++, ++k)
            PBT_CHECK(*it == m[k], what, ": post-increment");
    };

    check(makeView(container, DoubleDereference{}), model, "view");
    const C& c = container;
    check(makeView(c, DoubleDereference{}), model, "const view");

    // a part of it
    std::size_t a = s.index(model.size() + 1), b = a + s.index(model.size() - a + 1);
    check(
        makeView(std::next(container.begin(), (long)a), std::next(container.begin(), (long)b), DoubleDereference{}),
        std::vector<int>(model.begin() + (long)a, model.begin() + (long)b),
        "partial view"
    );

    // elements are the ones of the container, not copies
    std::size_t k = 0;
    for (int& i : makeView(container, DoubleDereference{}))
    {
        i += 1000;
        model[k++] += 1000;
    }
    k = 0;
    for (auto& p : container)
        PBT_CHECK(*p == model[k++], "a change through the view is lost");
    auto plain = makeView(container);
    k          = 0;
    for (auto& p : plain)
        PBT_CHECK(*p == model[k++] && &p != nullptr, "view without transformation");
    s.nontrivial(model.size() > 2);
}

void views(Source& s)
{
    long n = s.size(0, 20);
    std::vector<int> v;
    for (long i = 0; i < n; ++i)
        v.push_back((int)s.integer(-50, 50));
    switch (s.index(3))
    {
        case 0:
        {
            std::list<std::shared_ptr<int>> l;
            for (int i : v)
                l.push_back(std::make_shared<int>(i));
            return viewsOf(s, l);
        }
        case 1:
        {
            std::vector<std::shared_ptr<int>> l;
            for (int i : v)
                l.push_back(std::make_shared<int>(i));
            return viewsOf(s, l);
        }
        default:
        {
            std::vector<int*> l;
            for (int& i : v)
                l.push_back(&i);
            return viewsOf(s, l);
        }
    }
}

template <class C>
void partitionOf(Source& s, C c)
{
    std::multiset<int> before(c.begin(), c.end());
    int                limit = (int)s.integer(-20, 20), mod = (int)s.integer(1, 4);
    auto               goesLeft = [&](int v) { return v < limit || v % mod == 0; };
    long               calls    = 0;
    std::size_t        lo = s.index(c.size() + 1), hi = lo + s.index(c.size() - lo + 1);
    std::vector<int>   original(c.begin(), c.end());
    auto               first = std::next(c.begin(), (long)lo), last = std::next(c.begin(), (long)hi);
    auto               mid = booleanSort(first, last, [&](auto it) {
        ++calls;
        return goesLeft(*it);
    });
    first = std::next(c.begin(), (long)lo);
    last  = std::next(c.begin(), (long)hi);
    bool left = true;
    for (auto it = first; it != last; ++it)
    {
        if (it == mid)
            left = false;
        PBT_CHECK(goesLeft(*it) == left, "element ", *it, " is on the wrong side");
    }
    PBT_CHECK(std::multiset<int>(c.begin(), c.end()) == before, "elements are lost or duplicated");
    std::vector<int> after(c.begin(), c.end());
    for (std::size_t i = 0; i < after.size(); ++i)
        if (i < lo || i >= hi)
            PBT_CHECK(after[i] == original[i], "an element outside of the range moved");
    PBT_CHECK(std::multiset<int>(after.begin() + (long)lo, after.begin() + (long)hi)
                  == std::multiset<int>(original.begin() + (long)lo, original.begin() + (long)hi), "an element crossed the range");
    if (hi > lo)
        PBT_CHECK(calls >= (long)(hi - lo), "not every element is tested");
    s.nontrivial(hi - lo > 2);
}

void partition(Source& s)
{
    std::vector<int> v;
    long             n = s.size(0, 40);
    for (long i = 0; i < n; ++i)
        v.push_back((int)s.integer(-20, 20));
    if (s.boolean())
        partitionOf(s, v);
    else
        partitionOf(s, std::list<int>(v.begin(), v.end()));
}

template <class T>
void clampOf(Source& s, T a, T b, T x)
{
    T lo = std::min(a, b), hi = std::max(a, b);
    T c  = simu::clamp(x, lo, hi);
    s.note("clamp ", x, " to [", lo, ", ", hi, "] = ", c);
    PBT_CHECK(c >= lo && c <= hi, "clamp(", x, ", ", lo, ", ", hi, ") = ", c);
    PBT_CHECK(x < lo ? c == lo : x > hi ? c == hi : c == x, "clamp(", x, ", ", lo, ", ", hi, ") = ", c);
}

void numbers(Source& s)
{
    clampOf<int>(s, (int)s.integer(-1000, 1000), (int)s.integer(-1000, 1000), (int)s.integer(-2000, 2000));
    clampOf<float>(s, anyFloat(s), anyFloat(s), anyFloat(s));
    clampOf<double>(s, s.real(-5, 5), s.real(-5, 5), s.real(-10, 10));
    int q = (int)s.integer(-40000, 40000);
    if (std::abs((long)q) < 46340)
        PBT_CHECK(squared(q) == q * q, "squared ", q);
    float f = (float)s.real(-1000, 1000);
    PBT_CHECK(squared(f) == f * f, "squared ", f);
    s.nontrivial();
}

template <class T>
void integersOf(Source& s)
{
    typedef std::numeric_limits<T> L;
    T lo, hi;
    if (s.chance(1, 4))
    {
        lo = s.boolean() ? L::min() : T(0);
        hi = L::max();
    }
    else
    {
        lo = std::is_signed_v<T> ? (T)s.integer(-100, 100) : (T)s.integer(0, 100);
        hi = (T)(lo + (T)s.integer(0, 30));
    }
    long        n    = 400;
    std::set<T> seen;
    for (long i = 0; i < n; ++i)
    {
        T v = Random::uniform<T>(lo, hi);
        PBT_CHECK(v >= lo && v <= hi, "uniform(", lo, ", ", hi, ") = ", v);
        seen.insert(v);
    }
    // 400 draws miss one of 6 values once in 10^31
    if ((double)hi - (double)lo <= 5)
        PBT_CHECK(seen.size() == (std::size_t)(hi - lo) + 1, "only ", seen.size(), " of the values in [", lo, ", ", hi, "] are drawn");
    else
        PBT_CHECK(seen.size() > 1, "always the same number");
}

template <class T>
void realsOf(Source& s)
{
    T lo = (T)s.real(-100, 100), hi = lo + (T)s.real(0.01, 100);
    int below = 0;
    T   mid   = lo + (hi - lo) / 2;
    for (int i = 0; i < 400; ++i)
    {
        T v = Random::uniform<T>(lo, hi);
        PBT_CHECK(v >= lo && v <= hi, "uniform(", lo, ", ", hi, ") = ", v);
        below += v < mid;
    }
    // 10 standard deviations
    PBT_CHECK(below > 100 && below < 300, below, " of 400 numbers are below the middle of [", lo, ", ", hi, "]");
}

void randoms(Source& s)
{
    switch (s.index(6))
    {
        case 0: integersOf<int>(s); break;
        case 1: integersOf<short>(s); break;
        case 2: integersOf<unsigned long>(s); break;
        case 3: integersOf<unsigned short>(s); break;
        case 4: realsOf<float>(s); break;
        default: realsOf<double>(s);
    }
    // a distribution object is used as it is
    int                                a = (int)s.integer(-5, 5);
    std::uniform_int_distribution<int> d{a, a};
    PBT_CHECK(Random::generate(d) == a, "generate with a distribution");
    int v = Random::generate<std::uniform_int_distribution<int>>(a, a + 2);
    PBT_CHECK(v >= a && v <= a + 2, "generate with arguments");
    s.nontrivial();
}

void profiler(Source& s)
{
    typedef std::chrono::steady_clock Clock;
    auto                              since = [](Clock::time_point t) {
        return std::chrono::duration<double>(Clock::now() - t).count();
    };
    auto work = [&]() -> double {
        // a known amount of time passes
        long us = s.integer(0, 60);
        auto t  = Clock::now();
        while (since(t) < (double)us * 1e-6)
        {
        }
        return (double)us * 1e-6;
    };

    TimeEntry e{};
    PBT_CHECK(e.nMeasures() == 0 && e.last() == 0 && e.average() == 0 && e.max() == 0, "new entry");
    long   n = s.size(1, 12), measures = 0;
    double sum = 0, max = 0, partial = 0, partialUpper = 0;
    bool   inPartial = false, committed = false, moved = false;
    for (long i = 0; i < n; ++i)
    {
        switch (inPartial ? s.weighted({2, 1}) + 1 : s.weighted({3, 1}))
        {
            case 0:
            {
                if (inPartial)
                    break;
                auto   t     = Clock::now();
                double lower = 0, upper = 0;
                {
                    auto timer = e.time();
                    lower      = work();
                    if (s.chance(1, 3))
                    {
                        auto other = std::move(timer);
                        moved      = true;
                        lower += work();
                        PBT_CHECK(e.nMeasures() == measures, "measured before the end");
                    }
                    if (e.nMeasures() > measures)
                        lower = lower; // the moved-to timer ended
                }
                upper = since(t);
                ++measures;
                PBT_CHECK(e.nMeasures() == measures, e.nMeasures(), " measures instead of ", measures);
                PBT_CHECK(e.last() >= lower - 1e-9 && e.last() <= upper, "measured ", e.last(), " s instead of [", lower, ", ", upper, "]");
                sum += e.last();
                max = std::max(max, e.last());
                break;
            }
            case 1:
                if (!inPartial)
                {
                    e.startPartial();
                    partial = partialUpper = 0;
                    inPartial              = true;
                    PBT_CHECK(e.last() == 0, "startPartial");
                }
                {
                    auto t = Clock::now();
                    {
                        auto timer = e.timePartial();
                        partial += work();
                    }
                    partialUpper += since(t);
                }
                PBT_CHECK(e.nMeasures() == measures, "a partial measure is counted");
                PBT_CHECK(e.last() >= partial - 1e-9 && e.last() <= partialUpper, "partial sum ", e.last(), " instead of [", partial, ", ", partialUpper, "]");
                break;
            default:
                if (!inPartial)
                    break;
                sum += e.last();
                max = std::max(max, e.last());
                e.commitPartial();
                ++measures;
                inPartial = false;
                committed = true;
        }
        PBT_CHECK(e.nMeasures() == measures, e.nMeasures(), " measures instead of ", measures);
        PBT_CHECK(close(e.max(), max, 1e-12), "max ", e.max(), " instead of ", max);
        if (measures > 0)
            PBT_CHECK(close(e.average(), sum / (double)measures, 1e-9), "average ", e.average(), " instead of ", sum / (double)measures);
    }
    Profiler p{};
    p.treeHeight       = 5;
    p.solvePositions   = e;
    p.reset();
    PBT_CHECK(p.treeHeight == 0 && p.solvePositions.nMeasures() == 0 && p.solvePositions.max() == 0, "reset");
    s.labelIf(moved, "timer moved");
    s.labelIf(committed, "partial measure committed");
    s.nontrivial(measures > 2);
}

typedef std::chrono::steady_clock Steady;

// waits for a known time
void busy(double seconds)
{
    auto t = Steady::now();
    while (std::chrono::duration<double>(Steady::now() - t).count() < seconds)
    {
    }
}

// what a step is known to spend in each phase, at least
struct Spent
{
    double narrow = 0, velocities = 0, positions = 0, other = 0;
    double sum() const { return narrow + velocities + positions + other; }
};

struct Slow : public Constraint
{
    Slow(const Bodies& b, Spent& sp, double v, double p, double r) : Constraint{b, true}, spent{sp}, inVelocities{v}, inPositions{p}, inPre{r} {}

    void preStep() override { wait(spent.other, inPre); }
    bool isActive(const Proxies&) override { return true; }
    void initSolve(const Proxies&) override {}
    void warmstart(Proxies&, float) override {}
    void solveVelocities(Proxies&, float) override { wait(spent.velocities, inVelocities); }
    void solvePositions(Proxies&) override { wait(spent.positions, inPositions); }

    static void wait(double& sum, double t)
    {
        busy(t);
        sum += t;
    }

    Spent& spent;
    double inVelocities, inPositions, inPre;
};

struct SlowContact : public ContactConstraint
{
    SlowContact(Collider& a, Collider& b, Spent& sp, double t) : ContactConstraint{a, b}, spent{sp}, time{t} {}

    void preStep() override
    {
        ContactConstraint::preStep();
        Slow::wait(spent.narrow, time);
    }

    Spent& spent;
    double time;
};

// what the profiler of a world says about its steps
void worldSteps(Source& s)
{
    Spent  spent{};
    double contactTime = (double)s.integer(0, 40) * 1e-6;
    World  w{};
    w.setContactFactory([&](Collider& a, Collider& b, const World::ContactAlloc& alloc) -> UniquePtr<ContactConstraint> {
        return makeUnique<SlowContact>(alloc, a, b, spent, contactTime);
    });
    World::Settings st   = w.settings();
    st.nVelocityIterations = (Uint32)s.integer(1, 4);
    st.nPositionIterations = (Uint32)s.integer(1, 4);
    w.updateSettings(st);

    std::vector<Body*> bodies;
    auto               add = [&] {
        bodies.push_back(makeBody(w, boxVerts(1, 1), vec(s, s.boolean() ? 3 : 30), s.real(-3, 3), s.chance(1, 6) ? 0 : 1));
    };
    long n = s.size(1, 12);
    for (long i = 0; i < n; ++i)
        add();
    long m = s.integer(0, 3);
    for (long i = 0; i < m; ++i)
    {
        Body* a = bodies[s.index(bodies.size())];
        Body* b = bodies[s.index(bodies.size())];
        if (a == b || a->isStructural() || b->isStructural())
            continue;
        w.makeConstraint<Slow>(
            Bodies{a, b}, spent, (double)s.integer(0, 30) * 1e-6, (double)s.integer(0, 30) * 1e-6, (double)s.integer(0, 30) * 1e-6
        );
    }

    struct Stat
    {
        const char*       name;
        const TimeEntry&  e;
        long              n = 0;
        double            sum = 0, max = 0, last = 0;
    };
    Profiler&         p = w.profiler();
    std::vector<Stat> stats{
        {"treeUpdateAndCollision", p.treeUpdateAndCollision},
        {"narrowPhaseCollision", p.narrowPhaseCollision},
        {"islandConstruction", p.islandConstruction},
        {"solveVelocities", p.solveVelocities},
        {"solvePositions", p.solvePositions},
    };

    long steps = s.size(1, 10);
    bool work = false, paused = false;
    for (long k = 0; k < steps; ++k)
    {
        if (s.chance(1, 4))
            add();
        if (s.chance(1, 10))
        {
            p.reset();
            for (Stat& t : stats)
                t.n = 0, t.sum = t.max = t.last = 0;
            for (Stat& t : stats)
                PBT_CHECK(t.e.nMeasures() == 0 && t.e.last() == 0 && t.e.max() == 0 && t.e.average() == 0, "reset leaves measures of ", t.name);
            PBT_CHECK(p.treeHeight == 0, "reset leaves the height of the tree");
        }
        float dt   = s.chance(1, 5) ? 0.f : (float)s.real(0.001, 0.05);
        spent      = Spent{};
        auto start = Steady::now();
        w.step(dt);
        double total  = std::chrono::duration<double>(Steady::now() - start).count();
        double rest   = total - spent.sum();
        double low[5] = {0, spent.narrow, 0, spent.velocities, spent.positions};
        double sum    = 0;
        for (int i = 0; i < 5; ++i)
        {
            Stat& t = stats[(std::size_t)i];
            // a step of no duration only updates the contacts
            if (dt > 0 || i == 1)
            {
                ++t.n;
                t.last = t.e.last();
                t.sum += t.last;
                t.max = std::max(t.max, t.last);
                PBT_CHECK(t.last >= low[i] - 1e-9, t.name, " lasted ", t.last, " s, a known part of it lasts ", low[i], " s");
                PBT_CHECK(t.last <= low[i] + rest + 1e-9, t.name, " is said to last ", t.last, " s, it lasts at most ", low[i] + rest, " s: the step lasted ", total, " s");
                sum += t.last;
            }
            PBT_CHECK(t.e.nMeasures() == t.n, t.name, " has ", t.e.nMeasures(), " measures instead of ", t.n, ", the step is of ", dt, " s");
            PBT_CHECK(t.e.last() == t.last, t.name, " changed its last measure in a step that does not measure it");
            PBT_CHECK(close(t.e.max(), t.max, 1e-12), t.name, ": maximum ", t.e.max(), " instead of ", t.max);
            if (t.n > 0)
                PBT_CHECK(close(t.e.average(), t.sum / (double)t.n, 1e-9), t.name, ": average ", t.e.average(), " instead of ", t.sum / (double)t.n);
        }
        PBT_CHECK(sum <= total - spent.other + 1e-9, "the phases lasted ", sum, " s, the step ", total, " s, of which ", spent.other, " s in no phase");
        if (dt > 0)
        {
            double leaves = (double)bodies.size();
            PBT_CHECK(p.treeHeight >= std::ceil(std::log2(leaves)) && p.treeHeight <= leaves, "a tree of ", leaves, " colliders has a height of ", p.treeHeight);
        }
        work   = work || spent.narrow + spent.velocities + spent.positions > 0;
        paused = paused || dt == 0;
    }
    s.labelIf(paused, "step of no duration");
    s.labelIf(spent.narrow > 0, "slow contacts");
    s.labelIf(spent.velocities > 0, "slow constraints");
    s.nontrivial(work);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C14",
         "Views of vectors and lists of pointers (whole or part), booleanSort of ranges of vectors and lists, clamp and "
         "squared, uniform random numbers over generated bounds (400 draws each), time entries with full, partial and "
         "moved measures of a known duration, worlds whose contacts and constraints take a known time. Non-trivial: more than two elements or measures.",
         {"the steady clock is monotonic"},
         {{"views", views, 40000, 1000000, 5},
          {"partition", partition, 100000, 2000000, 5},
          {"numbers", numbers, 100000, 2000000, 5},
          {"randoms", randoms, 10000, 200000, 5},
          {"profiler", profiler, 15000, 200000, 5},
          {"world", worldSteps, 8000, 100000, 5}}}
    );
}
