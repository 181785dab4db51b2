// C11: the R-tree behaves as a multiset of (box, value)
// SOURCES: math bbox
// FLAGS: san cov
#include "rtree_common.hpp"

namespace
{

struct Machine
{
    Source&            s;
    Tree               tree{};
    std::vector<Item>  model{};
    int                nextId = 0;
    Layout             layout;
    bool               erased = false, queriedDeep = false;
    long               ops = 0;

    explicit Machine(Source& src) : s{src}, layout{src} {}

    std::set<int> expected(const BoundingBox& q, int except = -1) const
    {
        std::set<int> e;
        for (const Item& i : model)
            if (i.id != except && refOverlap(i.box, q))
                e.insert(i.id);
        return e;
    }

    static std::string show(const std::set<int>& v)
    {
        std::string r = "{";
        for (int i : v)
            r += std::to_string(i) + " ";
        return r + "}";
    }

    void checkVisit(const std::multiset<int>& got, const std::set<int>& want, const char* what)
    {
        std::set<int> g(got.begin(), got.end());
        PBT_CHECK(g == want, what, " visited ", show(g), " instead of ", show(want));
        PBT_CHECK(got.size() == g.size(), what, " visited an element twice");
    }

    void insert()
    {
        BoundingBox b  = layout.box(s);
        int         id = nextId++;
        Tree::iterator it;
        if (s.boolean())
            it = tree.insert(b, Value{id});
        else
            it = tree.emplace(b, id, id * 3);
        s.note("insert ", id, " ", ::show(b));
        PBT_CHECK(it->id == id && (*it).id == id, "insert returns an iterator to another value");
        model.push_back({id, b, it});
    }

    void erase()
    {
        if (model.empty())
            return;
        std::size_t k = s.index(model.size());
        s.note("erase ", model[k].id);
        // the element after, in iteration order
        auto next = model[k].it;
        ++next;
        bool hasNext = next != tree.end();
        int  nextId  = hasNext ? next->id : -1;

        auto ret = tree.erase(model[k].it);
        if (hasNext)
            PBT_CHECK(ret != tree.end() && ret->id == nextId, "erase does not return the next element");
        else
            PBT_CHECK(ret == tree.end(), "erase of the last element does not return end");
        model.erase(model.begin() + (long)k);
        erased = true;
    }

    void update()
    {
        if (model.empty())
            return;
        std::size_t k = s.index(model.size());
        model[k].box  = layout.box(s);
        s.note("update ", model[k].id, " ", ::show(model[k].box));
        auto it = tree.update(model[k].it, model[k].box);
        PBT_CHECK(it == model[k].it, "update changes the iterator");
    }

    void queryIn()
    {
        BoundingBox q = layout.box(s);
        if (s.weighted({4, 1}) == 1)
            q = BoundingBox{Vec2{-1e30f, -1e30f}, Vec2{1e30f, 1e30f}};
        s.note("forEachIn ", ::show(q));
        std::multiset<int> got;
        tree.forEachIn(q, [&](Tree::iterator it) { got.insert(it->id); });
        auto e = expected(q);
        checkVisit(got, e, "forEachIn");
        s.labelIf(e.size() > 0 && e.size() < model.size(), "selective query");
        queriedDeep = queriedDeep || (model.size() >= 4 && e.size() > 0);
    }

    void queryAt()
    {
        BoundingBox b = layout.box(s);
        Vec2        p = s.boolean() && b.isValid() ? b.max() : b.min();
        if (!model.empty() && s.boolean())
        {
            const Item& i = s.pick(model);
            p             = s.boolean() ? i.box.min() : i.box.max(); // exactly on a corner
        }
        s.note("forEachAt ", p);
        std::multiset<int> got;
        tree.forEachAt(p, [&](Tree::iterator it) { got.insert(it->id); });
        checkVisit(got, expected(BoundingBox{p, p}), "forEachAt");
    }

    void queryOverlapping()
    {
        if (model.empty())
            return;
        const Item& i = s.pick(model);
        s.note("forEachOverlapping ", i.id);
        std::multiset<int> got;
        tree.forEachOverlapping(i.it, [&](Tree::iterator it) { got.insert(it->id); });
        checkVisit(got, expected(i.box, i.id), "forEachOverlapping");
    }

    void queryBatch()
    {
        std::vector<Tree::iterator> its;
        std::vector<const Item*>    items;
        std::string                 ids;
        for (const Item& i : model)
            if (s.boolean())
            {
                its.push_back(i.it);
                items.push_back(&i);
                ids += std::to_string(i.id) + " ";
            }
        if (its.empty())
            return;
        s.note("forEachOverlapping batch ", ids);
        std::map<int, std::multiset<int>> got;
        tree.forEachOverlapping(
            makeView(its.data(), its.data() + its.size()),
            [&](Tree::iterator other, Tree::iterator it) {
                // whether an element overlaps itself is not specified
                if (other != it)
                    got[it->id].insert(other->id);
            }
        );
        for (const Item* i : items)
        {
            checkVisit(got[i->id], expected(i->box, i->id), "forEachOverlapping (batch)");
            got.erase(i->id);
        }
        PBT_CHECK(got.empty(), "batch query reports pairs of an element that was not asked for");
        s.label("batch query");
    }

    void eraseIf()
    {
        int mod = (int)s.integer(2, 4), rest = (int)s.integer(0, 1);
        s.note("erase while iterating: id % ", mod, " == ", rest);
        std::set<int> visited;
        auto          it = tree.begin();
        while (it != tree.end())
        {
            PBT_CHECK(visited.insert(it->id).second, "iteration visits ", it->id, " twice while erasing");
            if (it->id % mod == rest)
                it = tree.erase(it);
            else
                ++it;
        }
        PBT_CHECK(visited.size() == model.size(), "iteration with erase skips elements");
        std::erase_if(model, [&](const Item& i) { return i.id % mod == rest; });
        erased = true;
    }

    void updateAndCollide()
    {
        std::map<int, BoundingBox> next;
        for (Item& i : model)
            next[i.id] = s.chance(1, 2) ? layout.box(s) : i.box;
        s.note("updateAndCollide");
        std::multiset<int>           updated;
        std::multiset<std::pair<int, int>> pairs;
        tree.updateAndCollide(
            [&](Tree::iterator it) {
                updated.insert(it->id);
                return next[it->id];
            },
            [&](Tree::iterator a, Tree::iterator b) {
                pairs.insert(std::minmax(a->id, b->id));
            }
        );
        for (Item& i : model)
            i.box = next[i.id];
        std::set<std::pair<int, int>> want;
        for (std::size_t a = 0; a < model.size(); ++a)
        {
            PBT_CHECK(updated.count(model[a].id) == 1, "element ", model[a].id, " not updated once");
            for (std::size_t b = a + 1; b < model.size(); ++b)
                if (refOverlap(model[a].box, model[b].box))
                    want.insert(std::minmax(model[a].id, model[b].id));
        }
        std::set<std::pair<int, int>> got(pairs.begin(), pairs.end());
        PBT_CHECK(got == want, "collision pairs: got ", got.size(), " expected ", want.size());
        PBT_CHECK(got.size() == pairs.size(), "a pair is reported twice");
        s.label("updateAndCollide");
    }

    void move()
    {
        if (s.boolean())
        {
            s.note("move construct and assign back");
            // the storage of the new tree holds whatever was there before
            alignas(Tree) static unsigned char buf[sizeof(Tree)];
            std::memset(buf, 0x5a, sizeof buf);
            Tree* other = new (buf) Tree{std::move(tree)};
            PBT_CHECK(other->size() == model.size(), "moved-to tree");
            tree = std::move(*other);
            other->~Tree();
        }
        else
        {
            s.note("move assign over a filled tree");
            Tree other{};
            other.emplace(BoundingBox{Vec2{0, 0}, Vec2{1, 1}}, 1000000);
            other = std::move(tree);
            PBT_CHECK(other.size() == model.size(), "moved-to tree");
            tree = std::move(other);
        }
        s.label("move");
    }

    void clear()
    {
        s.note("clear");
        tree.clear();
        model.clear();
    }

    void bulk()
    {
        long n = s.integer(4, 24);
        for (long i = 0; i < n; ++i)
            insert();
    }

    void invariant()
    {
        PBT_CHECK(tree.size() == model.size(), "size ", tree.size(), " instead of ", model.size());
        PBT_CHECK(tree.isEmpty() == model.empty(), "isEmpty");
        PBT_CHECK(liveValues == (long)model.size(), liveValues, " live values for ", model.size(), " elements");
        PBT_CHECK(
            same(tree.bounds(), cover(model)),
            "bounds() is ",
            ::show(tree.bounds()),
            " instead of ",
            ::show(cover(model))
        );
        std::map<int, const Item*> byId;
        for (const Item& i : model)
            byId[i.id] = &i;
        std::set<int> visited;
        std::size_t   count = 0;
        for (auto it = tree.begin(); it != tree.end(); ++it)
        {
            PBT_CHECK(++count <= model.size(), "iteration visits too many elements");
            auto f = byId.find(it->id);
            PBT_CHECK(f != byId.end(), "iteration visits the erased element ", it->id);
            PBT_CHECK(visited.insert(it->id).second, "iteration visits ", it->id, " twice");
            PBT_CHECK(it == f->second->it, "the iterator to ", it->id, " changed");
            PBT_CHECK(same(it.bounds(), f->second->box), "bounds of element ", it->id);
            PBT_CHECK(same(tree.bounds(it), f->second->box), "tree.bounds(it)");
        }
        PBT_CHECK(visited.size() == model.size(), "iteration visits ", visited.size(), " of ", model.size());
        for (const Item& i : model)
            PBT_CHECK(i.it->id == i.id, "iterator of ", i.id, " is not stable");
        std::size_t cn = 0;
        for (const Value& v : static_cast<const Tree&>(tree))
        {
            PBT_CHECK(byId.count(v.id), "const iteration");
            ++cn;
        }
        PBT_CHECK(cn == model.size(), "const iteration");
        // a binary tree
        Uint32 h = tree.height();
        PBT_CHECK(h <= std::max<std::size_t>(model.size(), 0), "height ", h, " for ", model.size());
        PBT_CHECK(h >= 63 || (std::size_t{1} << h) >= model.size(), "height ", h, " for ", model.size());
    }
};

void model(Source& s)
{
    long before = liveBytes;
    liveValues  = 0;
    {
        Machine m{s};
        long    n = s.size(1, 60);
        for (long i = 0; i < n; ++i)
        {
            switch (s.weighted({6, 3, 3, 2, 1, 2, 1, 1, 1, 1, 1, 1}))
            {
                case 0: m.insert(); break;
                case 1: m.erase(); break;
                case 2: m.update(); break;
                case 3: m.queryIn(); break;
                case 4: m.queryAt(); break;
                case 5: m.queryOverlapping(); break;
                case 6: m.queryBatch(); break;
                case 7: m.eraseIf(); break;
                case 8: m.updateAndCollide(); break;
                case 9: m.bulk(); break;
                case 10: m.move(); break;
                default:
                    if (s.weighted({6, 1}) == 1)
                        m.clear();
            }
            m.invariant();
        }
        m.queryIn();
        for (const Item& i : m.model)
        {
            std::multiset<int> got;
            m.tree.forEachIn(i.box, [&](Tree::iterator it) { got.insert(it->id); });
            m.checkVisit(got, m.expected(i.box), "forEachIn (own box)");
        }
        s.labelIf(m.tree.height() >= 4, "height >= 4");
        s.nontrivial(m.erased && m.queriedDeep);
    }
    PBT_CHECK(liveValues == 0, liveValues, " values are never destroyed");
    PBT_CHECK(liveBytes == before, liveBytes - before, " bytes are never deallocated");
}

} // namespace

int main(int argc, char** argv)
{
    return pbt::main(
        argc,
        argv,
        {"C11",
         "Stateful: sequences of up to 60 operations (insert, emplace, erase, update, the four kinds of query, erase "
         "while iterating, updateAndCollide, move, clear, bulk insertion) run against the tree and against a list of "
         "(box, id) with brute-force queries; after every operation size, bounds, iteration order-free content, "
         "iterator stability, live value count are compared. Non-trivial: something was erased and a query over at "
         "least 4 elements had a non-empty answer.",
         {"finite box coordinates", "elements are not modified from query callbacks"},
         {{"model", model, 16000, 500000}}}
    );
}
