// C13: allocator and owning pointers
// SOURCES: utility
// FLAGS: san cov
#include "gen.hpp"

#include "Simu/utility/Memory.hpp"

#include <deque>
#include <list>
#include <map>
#include <new>
#include <set>
#include <vector>

using namespace simu;
using namespace gen;

// blocks come from new[]: their ranges are recorded while an allocator runs
namespace
{
typedef unsigned char Byte;
bool                         recording = false;
std::map<Byte*, std::size_t> blocks;
bool                         busy = false;

struct Recording
{
    Recording() { recording = true; }
    ~Recording() { recording = false; }
};
} // namespace

void* operator new[](std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (p == nullptr)
        throw std::bad_alloc{};
    if (recording && !busy)
    {
        busy                        = true;
        blocks[static_cast<Byte*>(p)] = n;
        busy                        = false;
    }
    return p;
}
void operator delete[](void* p) noexcept
{
    if (!busy && p != nullptr)
    {
        busy = true;
        blocks.erase(static_cast<Byte*>(p));
        busy = false;
    }
    std::free(p);
}
void operator delete[](void* p, std::size_t) noexcept { operator delete[](p); }

namespace
{

template <std::size_t size, std::size_t align>
struct alignas(align) Cell
{
    Byte bytes[size];
};

// allocations of any type through copies of one allocator
template <std::size_t blockSize>
struct Raw
{
    typedef FreeListAllocator<char, blockSize> A;

    struct Live
    {
        Byte*       p;
        std::size_t bytes;
        std::size_t n;
        int         type;
        Byte        pattern;
    };

    Source&           s;
    std::vector<A>    allocs{1};
    std::vector<Live> live{};
    bool              reused = false, freed = false, second = false;

    explicit Raw(Source& src) : s{src} {}

    template <class T>
    bool fitsInAGap(std::size_t n) const
    {
        for (auto [start, size] : blocks)
        {
            std::map<Byte*, Byte*> used;
            for (const Live& l : live)
                if (l.p >= start && l.p < start + size)
                    used[l.p] = l.p + l.bytes;
            Byte* cursor = start;
            used[start + size] = start + size;
            for (auto [from, to] : used)
            {
                std::uintptr_t a = (reinterpret_cast<std::uintptr_t>(cursor) + alignof(T) - 1) / alignof(T) * alignof(T);
                if (a + n * sizeof(T) <= reinterpret_cast<std::uintptr_t>(from))
                    return true;
                cursor = to;
            }
        }
        return false;
    }

    template <class T>
    void allocate(int type)
    {
        std::size_t n = s.chance(1, 6) ? (std::size_t)s.integer(0, (long)(3 * blockSize / sizeof(T)) + 2) : (std::size_t)s.integer(0, 6);
        if (s.chance(1, 8))
            n = blockSize / sizeof(T) + (std::size_t)s.integer(0, 2);
        bool        fits   = fitsInAGap<T>(n);
        std::size_t before = blocks.size();
        A&          a      = allocs[s.index(allocs.size())];
        T*          p;
        {
            Recording r;
            typename A::template rebind<T>::other typed{a};
            p = typed.allocate(n);
        }
        s.note("allocate ", n, " of size ", sizeof(T), " align ", alignof(T), " -> ", (void*)p);
        if (n == 0)
        {
            PBT_CHECK(p == nullptr || true, "");
            return;
        }
        PBT_CHECK(p != nullptr, "allocate(", n, ") gives null");
        Byte* b = reinterpret_cast<Byte*>(p);
        PBT_CHECK(reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0, "misaligned: ", (void*)p, " for ", alignof(T));
        std::size_t bytes = n * sizeof(T);
        for (const Live& l : live)
            PBT_CHECK(b + bytes <= l.p || l.p + l.bytes <= b, "overlaps a live allocation of ", l.bytes, " bytes");
        bool inside = false;
        for (auto [start, size] : blocks)
            inside = inside || (b >= start && b + bytes <= start + size);
        PBT_CHECK(inside, "the allocation is not inside of a block");
        if (fits)
            PBT_CHECK(blocks.size() == before, "a new block is made while ", n, " elements of size ", sizeof(T), " fit in free space");
        else
            PBT_CHECK(blocks.size() <= before + 1, "several blocks are made");
        reused = reused || (fits && freed);
        second = second || blocks.size() > 1;
        Byte pattern = (Byte)s.raw(255);
        std::memset(b, pattern, bytes);
        live.push_back({b, bytes, n, type, pattern});
    }

    template <class T>
    void deallocate(std::size_t k)
    {
        Live l = live[k];
        for (std::size_t i = 0; i < l.bytes; ++i)
            PBT_CHECK(l.p[i] == l.pattern, "byte ", i, " of an allocation of ", l.bytes, " has changed");
        s.note("deallocate ", (void*)l.p, " (", l.n, " of size ", sizeof(T), ")");
        live.erase(live.begin() + (long)k);
        A& a = allocs[s.index(allocs.size())];
        {
            Recording r;
            typename A::template rebind<T>::other typed{a};
            typed.deallocate(reinterpret_cast<T*>(l.p), l.n);
        }
        freed = true;
        for (const Live& o : live)
        {
            bool inside = false;
            for (auto [start, size] : blocks)
                inside = inside || (o.p >= start && o.p + o.bytes <= start + size);
            PBT_CHECK(inside, "the block of a live allocation was freed");
        }
        for (auto [start, size] : blocks)
        {
            bool used = false;
            for (const Live& o : live)
                used = used || (o.p >= start && o.p < start + size);
            PBT_CHECK(used, "an empty block is kept");
        }
    }

    template <class T>
    void op(int type, bool alloc, std::size_t k)
    {
        if (alloc)
            allocate<T>(type);
        else
            deallocate<T>(k);
    }

    void dispatch(int type, bool alloc, std::size_t k)
    {
        switch (type)
        {
            case 0: return op<Cell<1, 1>>(type, alloc, k);
            case 1: return op<Cell<4, 4>>(type, alloc, k);
            case 2: return op<Cell<8, 8>>(type, alloc, k);
            case 3: return op<Cell<3, 1>>(type, alloc, k);
            case 4: return op<Cell<16, 16>>(type, alloc, k);
            case 5: return op<Cell<64, 64>>(type, alloc, k);
            case 6: return op<Cell<40, 8>>(type, alloc, k);
            default: return op<Cell<2, 2>>(type, alloc, k);
        }
    }

    void run()
    {
        blocks.clear();
        long n = s.size(1, 60);
        for (long i = 0; i < n; ++i)
        {
            switch (s.weighted({6, 4, 1}))
            {
                case 0: dispatch((int)s.index(8), true, 0); break;
                case 1:
                    if (!live.empty())
                    {
                        std::size_t k = s.index(live.size());
                        dispatch(live[k].type, false, k);
                    }
                    break;
                default:
                    if (s.boolean() || allocs.size() == 1)
                        allocs.push_back(allocs[s.index(allocs.size())]);
                    else
                        allocs.erase(allocs.begin() + (long)s.index(allocs.size()));
            }
        }
        while (!live.empty())
        {
            std::size_t k = s.index(live.size());
            dispatch(live[k].type, false, k);
        }
        PBT_CHECK(blocks.empty(), blocks.size(), " blocks are kept once everything is freed");
        s.labelIf(reused, "freed space reused");
        s.labelIf(second, "several blocks");
        s.nontrivial(reused && second);
    }
};

void raw(Source& s)
{
    switch (s.index(3))
    {
        case 0: return Raw<64>{s}.run();
        case 1: return Raw<256>{s}.run();
        default: return Raw<1024>{s}.run();
    }
}

// containers over the allocator against the standard allocator
long livingObjects = 0;
struct Obj
{
    int  v;
    char pad[20];
    Obj(int x) : v{x} { ++livingObjects; }
    Obj(const Obj& o) : v{o.v} { ++livingObjects; }
    ~Obj()
    {
        v = -1;
        --livingObjects;
    }
    Obj& operator=(const Obj&) = default;
    bool operator==(const Obj& o) const { return v == o.v; }
};

void containers(Source& s)
{
    blocks.clear();
    livingObjects = 0;
    typedef FreeListAllocator<Obj, 512> A;
    {
        Recording r;
        A         a[3];
        typedef std::vector<Obj, A> V;
        typedef std::list<Obj, A>   L;
        std::vector<V>              vs;
        std::vector<L>              ls;
        std::vector<std::vector<int>> mv, ml;
        std::vector<int>              av, al;
        for (int i = 0; i < 3; ++i)
        {
            vs.emplace_back(a[i]);
            ls.emplace_back(a[i]);
            av.push_back(i);
            al.push_back(i);
        }
        mv.resize(3);
        ml.resize(3);
        auto eq = [](const auto& c, const std::vector<int>& m) {
            if (c.size() != m.size())
                return false;
            std::size_t i = 0;
            for (const Obj& o : c)
                if (o.v != m[i++])
                    return false;
            return true;
        };
        long ops = s.size(1, 50);
        bool replaced = false;
        for (long i = 0; i < ops; ++i)
        {
            std::size_t k = s.index(3), j = s.index(3);
            int         x = (int)s.integer(0, 100);
            switch (s.weighted({5, 5, 3, 3, 1, 1, 1, 1, 2}))
            {
                case 0: vs[k].push_back(Obj{x}); mv[k].push_back(x); break;
                case 1: ls[k].push_back(Obj{x}); ml[k].push_back(x); break;
                case 2:
                    if (!mv[k].empty())
                    {
                        std::size_t p = s.index(mv[k].size());
                        vs[k].erase(vs[k].begin() + (long)p);
                        mv[k].erase(mv[k].begin() + (long)p);
                    }
                    break;
                case 3:
                    if (!ml[k].empty())
                    {
                        std::size_t p = s.index(ml[k].size());
                        ls[k].erase(std::next(ls[k].begin(), (long)p));
                        ml[k].erase(ml[k].begin() + (long)p);
                    }
                    break;
                case 4: vs[k] = vs[j]; mv[k] = mv[j]; av[k] = av[j]; break;
                case 5: ls[k] = ls[j]; ml[k] = ml[j]; al[k] = al[j]; break;
                case 6: if (k != j) { vs[k].swap(vs[j]); mv[k].swap(mv[j]); std::swap(av[k], av[j]); } break;
                case 7: vs[k].shrink_to_fit(); break;
                default:
                    if (s.boolean())
                    {
                        replaceAllocator(vs[k], a[j]);
                        av[k] = (int)j;
                    }
                    else
                    {
                        replaceAllocator(ls[k], a[j]);
                        al[k] = (int)j;
                    }
                    replaced = true;
            }
            for (std::size_t c = 0; c < 3; ++c)
            {
                PBT_CHECK(eq(vs[c], mv[c]), "vector ", c, " has the wrong elements");
                PBT_CHECK(eq(ls[c], ml[c]), "list ", c, " has the wrong elements");
                for (int o = 0; o < 3; ++o)
                {
                    PBT_CHECK((vs[c].get_allocator() == a[o]) == (av[c] == o), "vector ", c, " has the wrong allocator");
                    PBT_CHECK((ls[c].get_allocator() != a[o]) == (al[c] != o), "list ", c, " has the wrong allocator");
                }
            }
        }
        if (s.boolean())
        {
            // containers outlive the handles to the allocators
            for (int i = 0; i < 3; ++i)
                a[i] = A{};
            for (std::size_t c = 0; c < 3; ++c)
                PBT_CHECK(eq(vs[c], mv[c]) && eq(ls[c], ml[c]), "a container depends on another handle to its allocator");
        }
        s.nontrivial(replaced && ops > 10);
        s.labelIf(replaced, "allocator replaced");
    }
    PBT_CHECK(livingObjects == 0, livingObjects, " objects were not destroyed");
    PBT_CHECK(blocks.empty(), "memory is kept once every container is gone");
}

// owning pointers
std::multiset<int> destroyed;
struct Base
{
    int id;
    Base(int i) : id{i} {}
    virtual ~Base() { destroyed.insert(id); }
};
struct Other
{
    virtual ~Other() = default;
    double d         = 1;
};
struct Derived : Base
{
    Byte payload[60];
    Derived(int i, Byte b) : Base{i} { std::memset(payload, b, sizeof(payload)); }
};
struct Throwing : Base
{
    Throwing(int i, bool t) : Base{i}
    {
        if (t)
            throw 1;
    }
};
int  elements = 0, throwAt = -1;
struct Element
{
    int v = 7;
    Element()
    {
        if (elements == throwAt)
            throw 2;
        ++elements;
    }
    ~Element()
    {
        v = 0;
        --elements;
    }
};

void pointers(Source& s)
{
    blocks.clear();
    destroyed.clear();
    elements = 0;
    throwAt  = -1;
    typedef FreeListAllocator<char, 256> A;
    std::vector<UniquePtr<Base>>      ptrs;
    std::vector<UniquePtr<Element[]>> arrays;
    std::vector<std::size_t>          sizes;
    std::multiset<int>                expected, alive;
    {
        Recording r;
        A*        a    = new A{};
        long      ops  = s.size(1, 40);
        int       next = 0;
        bool      threw = false, array = false;
        for (long i = 0; i < ops; ++i)
        {
            switch (s.weighted({4, 3, 2, 1, 1, 2, 1, 1}))
            {
                case 0:
                {
                    Byte              b = (Byte)s.raw(255);
                    UniquePtr<Derived> d = makeUnique<Derived>(*a, next, b);
                    PBT_CHECK(d->payload[59] == b && d->id == next, "construction arguments");
                    ptrs.emplace_back(std::move(d));
                    PBT_CHECK(d == nullptr, "moved from pointer is not null");
                    alive.insert(next++);
                    break;
                }
                case 1:
                    if (!ptrs.empty())
                    {
                        std::size_t k = s.index(ptrs.size());
                        expected.insert(ptrs[k]->id);
                        alive.erase(alive.find(ptrs[k]->id));
                        if (s.boolean())
                            ptrs.erase(ptrs.begin() + (long)k);
                        else
                        {
                            // overwritten
                            ptrs[k] = makeUnique<Base>(*a, next);
                            alive.insert(next++);
                        }
                    }
                    break;
                case 2: ptrs.emplace_back(makeUnique<Base>(*a, next)); alive.insert(next++); break;
                case 3:
                    try
                    {
                        ptrs.emplace_back(makeUnique<Throwing>(*a, next, true));
                        pbt::fail("the exception of a constructor is lost");
                    }
                    catch (int)
                    {
                    }
                    expected.insert(next++); // the base was built
                    threw = true;
                    break;
                case 4:
                {
                    // pointers outlive the allocator
                    A* b = s.boolean() ? new A{*a} : new A{};
                    delete a;
                    a = b;
                    break;
                }
                case 5:
                {
                    std::size_t n = (std::size_t)s.integer(1, 20);
                    int         before = elements;
                    auto        p = makeUnique<Element[]>(*a, n);
                    PBT_CHECK(elements == before + (int)n && p[0].v == 7 && p[n - 1].v == 7, "array of ", n, " elements");
                    arrays.emplace_back(std::move(p));
                    sizes.push_back(n);
                    array = true;
                    break;
                }
                case 6:
                    if (!arrays.empty())
                    {
                        std::size_t k = s.index(arrays.size());
                        int         before = elements;
                        std::size_t n = sizes[k];
                        arrays.erase(arrays.begin() + (long)k);
                        sizes.erase(sizes.begin() + (long)k);
                        PBT_CHECK(elements == before - (int)n, "an array of ", n, " was not destroyed");
                    }
                    break;
                default:
                {
                    int before = elements;
                    long n = s.integer(1, 6);
                    throwAt    = elements + (int)s.integer(0, n - 1);
                    try
                    {
                        makeUnique<Element[]>(*a, (std::size_t)n);
                        pbt::fail("the exception of an element is lost");
                    }
                    catch (int)
                    {
                    }
                    throwAt = -1;
                    PBT_CHECK(elements == before, "elements already built are not destroyed");
                    threw = true;
                }
            }
            PBT_CHECK(destroyed == expected, destroyed.size(), " objects destroyed instead of ", expected.size());
            std::multiset<int> now;
            for (auto& p : ptrs)
                now.insert(p->id);
            PBT_CHECK(now == alive, "objects changed");
            for (std::size_t k = 0; k < arrays.size(); ++k)
                for (std::size_t e = 0; e < sizes[k]; ++e)
                    PBT_CHECK(arrays[k][e].v == 7, "an element changed");
        }
        delete a;
        s.labelIf(threw, "constructor threw");
        s.labelIf(array, "array");
        s.nontrivial(ops > 8);
        while (!ptrs.empty())
        {
            expected.insert(ptrs.back()->id);
            ptrs.pop_back();
            PBT_CHECK(destroyed == expected, "destruction after the allocator is gone");
        }
        arrays.clear();
    }
    PBT_CHECK(elements == 0, elements, " elements were not destroyed");
    PBT_CHECK(blocks.empty(), blocks.size(), " blocks of memory are kept");
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C13",
         "raw: histories of allocations and deallocations of 8 types (sizes 1 to 64, alignments 1 to 64, any count up to "
         "several blocks) through copies of an allocator, in any order, against a model of the free space; non-trivial: "
         "several blocks and freed space reused. containers: vectors and lists over three allocators against models, with "
         "copies, swaps and replaceAllocator. pointers: objects, derived objects, arrays and throwing constructors.",
         {},
         {{"raw", raw, 60000, 1500000, 5},
          {"containers", containers, 60000, 1500000, 5},
          {"pointers", pointers, 60000, 1500000, 5}}}
    );
}
