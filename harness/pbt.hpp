// A small property-based testing engine.
//
// A property is a function of a Source.  Every random decision the property
// makes is an integer drawn through the Source and recorded; generation feeds
// the Source from a PRNG seeded with (VERIF_SEED, property, sub-property, case
// index), replay and shrinking feed it from a recorded list.  Shrinking works
// on that list only, so any generator written against Source shrinks for free.
//
// Cases run in forked workers. A crash, a sanitizer report, an uncaught
// exception or a case that does not terminate is attributed to the case being
// run, and every replay during shrinking happens in a child of its own.
#pragma once

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{

using u64 = std::uint64_t;

struct Failure
{
    std::string msg;
};

// A failure that matches the specific input of a listed known finding.
struct Known
{
    std::string id;
    std::string msg;
};

struct Discard
{
};

class Source
{
public:
    // generate
    explicit Source(u64 seed) : state_{seed}, replay_{false} {}
    // replay
    Source(std::vector<u64> choices, bool verbose)
        : choices_{std::move(choices)}, replay_{true}, verbose_{verbose}
    {
    }

    // replay a (mutated) list, then generate once it is exhausted
    Source(std::vector<u64> choices, u64 seed)
        : state_{seed}, choices_{std::move(choices)}, replay_{true}, tail_{true}
    {
    }

    // uniform in [0, max], 0 is the simplest value
    u64 raw(u64 max)
    {
        u64 v = 0;
        if (replay_ && (pos_ < choices_.size() || !tail_))
        {
            v = pos_ < choices_.size() ? choices_[pos_] : 0;
            if (v > max)
                v = tail_ ? v % (max + 1) : max;
            ++pos_;
        }
        else
        {
            v = (max == ~u64(0)) ? next() : next() % (max + 1);
        }
        used_.push_back(v);
        if (mirror_ != nullptr && mirror_[0] < mirrorCapacity)
            mirror_[++mirror_[0]] = v;
        return v;
    }

    // choices are also written there: [0] is the count, they survive a crash
    static constexpr u64 mirrorCapacity = 1 << 17;
    void                 setMirror(u64* m)
    {
        mirror_    = m;
        mirror_[0] = 0;
    }

    // a raw choice drawn with a bias function applied by the caller
    std::size_t index(std::size_t n) { return n <= 1 ? 0 : (std::size_t)raw(n - 1); }

    // [lo, hi], shrinks towards lo
    long integer(long lo, long hi) { return lo + (long)raw((u64)(hi - lo)); }

    // in [lo, hi] with hi - lo small sizes favoured
    long size(long lo, long hi)
    {
        u64 r = raw((u64)(hi - lo));
        if (hi - lo > 3 && raw(2) != 0)
        {
            // favour small: keep r within the lower part
            u64 r2 = raw((u64)(hi - lo));
            r      = r < r2 ? r : r2;
        }
        return lo + (long)r;
    }

    bool boolean() { return raw(1) == 1; }

    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den) { return raw(den - 1) >= den - num; }

    // 0 has the first weight; shrinks to 0
    std::size_t weighted(std::initializer_list<unsigned> weights)
    {
        u64 total = 0;
        for (unsigned w : weights)
            total += w;
        u64         r = raw(total - 1);
        std::size_t i = 0;
        for (unsigned w : weights)
        {
            if (r < w)
                return i;
            r -= w;
            ++i;
        }
        return 0;
    }

    template <class T>
    const T& pick(const std::vector<T>& v)
    {
        return v[index(v.size())];
    }
    template <class T>
    T pick(std::initializer_list<T> v)
    {
        return *(v.begin() + index(v.size()));
    }

    // a real in [lo, hi]; a mix of integers, quarters, 1/1024ths, full random mantissas.
    // Shrinks towards the integer closest to zero inside the range.
    double real(double lo, double hi)
    {
        static const u64 big = (u64(1) << 53) - 1;
        double           org = lo <= 0 && hi >= 0 ? 0 : (lo > 0 ? std::ceil(lo) : std::floor(hi));
        if (org < lo || org > hi)
            org = lo;
        double v;
        switch (weighted({3, 2, 2, 6}))
        {
            case 0: v = grid(lo, hi, org, 1.0); break;
            case 1: v = grid(lo, hi, org, 0.25); break;
            case 2: v = grid(lo, hi, org, 1.0 / 1024); break;
            default:
            {
                double u = (double)raw(big) / (double)big;
                v        = lo + (hi - lo) * u;
            }
        }
        return v < lo ? lo : (v > hi ? hi : v);
    }

    float f(float lo, float hi)
    {
        float v = (float)real(lo, hi);
        return v < lo ? lo : (v > hi ? hi : v);
    }

    // full random mantissa only
    double uniform(double lo, double hi)
    {
        static const u64 big = (u64(1) << 53) - 1;
        return lo + (hi - lo) * ((double)raw(big) / (double)big);
    }

    // magnitude spread over decades: [lo, hi], lo > 0
    double logUniform(double lo, double hi)
    {
        return lo * std::pow(hi / lo, uniform(0, 1));
    }

    bool verbose() const { return verbose_; }

    template <class... Args>
    void note(const Args&... args)
    {
        if (!verbose_)
            return;
        std::ostringstream ss;
        ss.precision(9);
        (ss << ... << args);
        if (notesFd_ < 0)
            notes_ += "  " + ss.str() + "\n";
        if (notesFd_ >= 0)
            writeNote("  " + ss.str() + "\n");
    }

    // Classification; printed in the evidence.
    void label(const std::string& l) { labels_.insert(l); }
    void labelIf(bool c, const char* l)
    {
        if (c)
            labels_.insert(l);
    }

    // This case exercises what the property is about (see the property's rule).
    void nontrivial() { nontrivial_ = true; }
    void nontrivial(bool c) { nontrivial_ = nontrivial_ || c; }

    const std::vector<u64>&      used() const { return used_; }
    const std::set<std::string>& labels() const { return labels_; }
    bool                         isNontrivial() const { return nontrivial_; }
    const std::string&           notes() const { return notes_; }
    // notes are written there as they come, they survive a crash
    void setNotesFd(int fd) { notesFd_ = fd; }

private:
    void writeNote(const std::string& s);

    u64 next()
    {
        // splitmix64
        u64 z = (state_ += 0x9e3779b97f4a7c15ull);
        z     = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z     = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    double grid(double lo, double hi, double org, double step)
    {
        u64 up   = (u64)std::floor((hi - org) / step);
        u64 down = (u64)std::floor((org - lo) / step);
        if (up + down == 0)
            return org;
        // zig-zag around org so small choices are close to it
        u64 r = raw(up + down);
        u64 m = up < down ? up : down;
        double d;
        if (r <= 2 * m)
            d = (r % 2 == 1) ? (double)((r + 1) / 2) : -(double)(r / 2);
        else
            d = up > down ? (double)(r - m) : -(double)(r - m);
        return org + d * step;
    }

    u64                   state_ = 0;
    std::vector<u64>      choices_{};
    std::size_t           pos_ = 0;
    bool                  replay_;
    bool                  tail_   = false;
    u64*                  mirror_ = nullptr;
    bool                  verbose_ = false;
    int                   notesFd_ = -1;
    std::vector<u64>      used_{};
    std::set<std::string> labels_{};
    bool                  nontrivial_ = false;
    std::string           notes_{};
};

template <class... Args>
std::string cat(const Args&... args)
{
    std::ostringstream ss;
    ss.precision(9);
    (ss << ... << args);
    return ss.str();
}

template <class... Args>
[[noreturn]] void fail(const Args&... args)
{
    throw Failure{cat(args...)};
}

#define PBT_CHECK(cond, ...)                                                   \
    do                                                                         \
    {                                                                          \
        if (!(cond))                                                           \
            ::pbt::fail("[" #cond "] ", __VA_ARGS__);                          \
    } while (0)

struct Sub
{
    std::string                   name;
    std::function<void(Source&)>  run;
    long                          quick;      // number of cases
    long                          thorough;
    double                        cpuLimit = 20; // seconds of CPU for one case
};

struct Property
{
    std::string              id;
    std::string              rule;        // how cases are made, what makes one non-trivial
    std::vector<std::string> assumptions;
    std::vector<Sub>         subs;
};

int main(int argc, char** argv, const Property& p);

} // namespace pbt
