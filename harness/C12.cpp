// C12: batch update and broad phase report every overlapping pair exactly once
// SOURCES: math bbox
// FLAGS: san cov
#include "rtree_common.hpp"

#include "Simu/utility/Memory.hpp"

namespace
{

typedef RTree<int, FreeListAllocator<int>> PoolTree;

struct Elem
{
    int                id;
    BoundingBox        box;
    PoolTree::iterator it;
};

BoundingBox moved(Source& s, BoundingBox b, int how)
{
    Vec2 d{};
    switch (how)
    {
        case 0: d = Vec2{(float)s.integer(-1, 1), (float)s.integer(-1, 1)}; break;
        case 1: d = Vec2{s.f(-1, 1), s.f(-1, 1)}; break;
        default: d = Vec2{s.f(-20, 20), s.f(-20, 20)};
    }
    return BoundingBox{b.min() + d, b.max() + d};
}

void pairs(Source& s)
{
    PoolTree          tree{};
    std::vector<Elem> model;
    Layout            layout{s};
    if (layout.kind == 4)
        layout.kind = 0;
    int  nextId = 0;
    long rounds = s.integer(1, 5);
    long first  = s.weighted({3, 3, 1}) == 2 ? s.integer(60, 220) : s.integer(0, 40);
    s.note("layout ", layout.kind, " spread ", layout.spread, " extent ", layout.extent);

    auto insert = [&]() {
        BoundingBox b = layout.box(s);
        model.push_back({nextId, b, tree.insert(b, nextId)});
        ++nextId;
    };
    for (long i = 0; i < first; ++i)
        insert();

    bool hadPairs = false;
    for (long r = 0; r < rounds; ++r)
    {
        // histories between two batch updates
        long edits = s.size(0, 10);
        for (long e = 0; e < edits; ++e)
        {
            switch (s.weighted({2, 2, 1}))
            {
                case 0: insert(); break;
                case 1:
                    if (!model.empty())
                    {
                        std::size_t k = s.index(model.size());
                        tree.erase(model[k].it);
                        model.erase(model.begin() + (long)k);
                    }
                    break;
                default:
                    if (!model.empty())
                    {
                        Elem& el = model[s.index(model.size())];
                        el.box   = layout.box(s);
                        tree.update(el.it, el.box);
                    }
            }
        }

        std::map<int, BoundingBox> next;
        int  how     = (int)s.weighted({3, 3, 1});
        bool all     = s.boolean();
        for (Elem& e : model)
            next[e.id] = (all || s.chance(1, 4)) ? moved(s, e.box, how) : e.box;

        std::multiset<int>                 updated;
        std::multiset<std::pair<int, int>> got;
        bool self = false;
        tree.updateAndCollide(
            [&](PoolTree::iterator it) {
                updated.insert(*it);
                return next[*it];
            },
            [&](PoolTree::iterator a, PoolTree::iterator b) {
                self = self || a == b;
                got.insert(std::minmax(*a, *b));
            }
        );
        PBT_CHECK(!self, "an element collides with itself");
        std::set<std::pair<int, int>> want;
        for (Elem& e : model)
            e.box = next[e.id];
        for (std::size_t i = 0; i < model.size(); ++i)
        {
            PBT_CHECK(updated.count(model[i].id) == 1, "element ", model[i].id, " is updated ",
                      updated.count(model[i].id), " times");
            for (std::size_t j = i + 1; j < model.size(); ++j)
                if (refOverlap(model[i].box, model[j].box))
                    want.insert(std::minmax(model[i].id, model[j].id));
        }
        s.note("round ", r, ": ", model.size(), " elements, ", want.size(), " overlapping pairs");
        for (auto& p : want)
            PBT_CHECK(got.count(p) > 0, "pair (", p.first, ", ", p.second, ") is missed; boxes ",
                      ::show(next[p.first]), " ", ::show(next[p.second]));
        for (auto& p : got)
        {
            PBT_CHECK(want.count(p) > 0, "pair (", p.first, ", ", p.second, ") does not overlap; boxes ",
                      ::show(next[p.first]), " ", ::show(next[p.second]));
            PBT_CHECK(got.count(p) == 1, "pair (", p.first, ", ", p.second, ") is reported ", got.count(p), " times");
        }
        hadPairs = hadPairs || want.size() >= 2;

        // the rebuilt tree is a valid tree over the same elements
        PBT_CHECK(tree.size() == model.size(), "size");
        std::map<int, BoundingBox> seen;
        std::size_t                count = 0;
        for (auto it = tree.begin(); it != tree.end(); ++it)
        {
            PBT_CHECK(++count <= model.size(), "iteration visits too many elements");
            PBT_CHECK(seen.emplace(*it, it.bounds()).second, "iteration visits ", *it, " twice");
        }
        PBT_CHECK(seen.size() == model.size(), "iteration after the update");
        BoundingBox whole{};
        for (Elem& e : model)
        {
            PBT_CHECK(*e.it == e.id, "iterator of ", e.id, " is not stable");
            PBT_CHECK(seen.count(e.id) && same(seen[e.id], e.box), "bounds of ", e.id);
            whole = whole.combined(e.box);
            std::multiset<int> in;
            tree.forEachOverlapping(e.it, [&](PoolTree::iterator it) { in.insert(*it); });
            for (Elem& o : model)
                PBT_CHECK(in.count(o.id) == (o.id != e.id && refOverlap(o.box, e.box) ? 1u : 0u),
                          "query around ", e.id, " reports ", o.id, " ", in.count(o.id), " times");
            if (model.size() > 60 && s.chance(9, 10))
                continue;
        }
        PBT_CHECK(same(tree.bounds(), whole), "bounds of the tree: ", ::show(tree.bounds()));
        s.labelIf(model.size() >= 2 && model.size() < 16, "2-15 elements");
        s.labelIf(model.size() >= 16 && model.size() < 60, "16-59 elements");
        s.labelIf(model.size() >= 60, ">= 60 elements");
        s.labelIf(model.size() == 1, "1 element");
        s.labelIf(model.size() == 0, "0 elements");
    }
    s.labelIf(hadPairs, "has pairs");
    s.nontrivial(hadPairs);
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C12",
         "Up to 220 boxes (integer grid, reals, rows, concentric, with invalid boxes), 1 to 5 rounds; before each "
         "round random insertions, erasures and updates, then one batch update that moves all or some of the boxes. "
         "Reported pairs are compared with an O(n^2) reference, then the rebuilt tree is iterated and queried around "
         "every element. Non-trivial: a round has at least two overlapping pairs.",
         {"finite box coordinates", "the callbacks do not modify the tree"},
         {{"pairs", pairs, 4000, 150000}}}
    );
}
