// C20: EntityView against std::vector<Entity>.
// A case builds an underlying list (a plain vector, or one obtained from a real instance), then a tree of views made
// from it by constructors, copies and subviews, each paired with the vector of entities it must stand for, and compares
// everything a caller can observe. With VALID_ONLY (the unchecked build) no out-of-range access is made.
#include <Tecs.hh>

#include <algorithm>
#include <iterator>
#include <memory>
#include <numeric>
#include <optional>
#include <vector>

#include "pbt.hh"

using Tecs::Entity;
using Tecs::EntityView;

struct VA {
    VA(int v = 0) : v(v) {}
    int v;
};
using World = Tecs::ECS<VA>;

#ifdef TECS_UNCHECKED_MODE
static constexpr bool CHECKED = false;
#else
static constexpr bool CHECKED = true;
#endif

namespace {
    struct Made {
        EntityView view;
        std::vector<Entity> model;
        size_t offset; // from the start of the underlying list
        int list;      // which underlying list, -1 for a default view
        int depth;
    };

    std::string str(const Entity &e) {
        return std::to_string(e);
    }

    template<typename F>
    bool throwsRuntime(F &&f) {
        try {
            f();
        } catch (const std::runtime_error &) {
            return true;
        }
        return false;
    }

    void expect(const Entity &got, const Entity &want, const char *what, size_t i, size_t n) {
        if (got != want)
            pbt::fail("%s: element %zu of a view of size %zu is %s, expected %s", what, i, n, str(got).c_str(),
                str(want).c_str());
    }

    size_t oddSize(pbt::Src &s, size_t n) {
        switch (s.below(8)) {
        case 0:
            return s.below(n + 2);
        case 1:
            return n;
        case 2:
            return n + 1;
        case 3:
            return SIZE_MAX;
        case 4:
            return SIZE_MAX - s.below(n + 3);
        case 5:
            return (SIZE_MAX >> 1) + s.below(5);
        case 6:
            return ((size_t)1 << 32) + s.below(n + 1);
        default:
            return n + s.below(70);
        }
    }

    // Everything about one view
    void compare(pbt::Src &s, const Made &m, const std::vector<Made> &all) {
        const EntityView &v = m.view;
        const auto &w = m.model;
        size_t n = w.size();
        if (v.size() != n) pbt::fail("size() is %zu, expected %zu", v.size(), n);
        if (v.empty() != w.empty()) pbt::fail("empty() is %d with size %zu", v.empty(), n);
        for (size_t i = 0; i < n; i++)
            expect(v[i], w[i], "operator[]", i, n);
        {
            size_t i = 0;
            for (const Entity &e : v) {
                if (i >= n) pbt::fail("forward iteration goes past the end of a view of size %zu", n);
                expect(e, w[i], "forward iteration", i, n);
                i++;
            }
            if (i != n) pbt::fail("forward iteration yields %zu elements of %zu", i, n);
        }
        {
            size_t i = 0;
            for (auto it = v.rbegin(); it != v.rend(); ++it, i++) {
                if (i >= n) pbt::fail("reverse iteration goes past the start of a view of size %zu", n);
                expect(*it, w[n - 1 - i], "reverse iteration", i, n);
                if (it->index != w[n - 1 - i].index) pbt::fail("reverse iterator -> gives another element");
            }
            if (i != n) pbt::fail("reverse iteration yields %zu elements of %zu", i, n);
        }
        {
            // backwards with the forward iterator, post- and pre-decrement
            auto it = v.end();
            bool post = s.chance(1, 2);
            for (size_t i = n; i-- > 0;) {
                if (post) {
                    auto old = it--;
                    if (!(old == v.begin() + (std::ptrdiff_t)(i + 1))) pbt::fail("it-- does not return the old position");
                } else {
                    auto &self = --it;
                    if (&self != &it) pbt::fail("--it does not return itself");
                }
                expect(*it, w[i], "backward iteration", i, n);
                expect(Entity(it->index, it->generation), w[i], "backward iteration with ->", i, n);
            }
            if (!(it == v.begin()) || it != v.begin()) pbt::fail("backward iteration does not end at begin()");
            // forwards
            for (size_t i = 0; i < n; i++) {
                expect(*it, w[i], "forward iteration by hand", i, n);
                if (post) {
                    auto old = it++;
                    expect(*old, w[i], "it++ old position", i, n);
                } else {
                    auto &self = ++it;
                    if (&self != &it) pbt::fail("++it does not return itself");
                }
                if ((it == v.begin()) || !(it != v.begin())) pbt::fail("a later position equals begin()");
            }
            if (!(it == v.end()) || it != v.end()) pbt::fail("forward iteration does not end at end()");
        }
        // random iterator expressions
        std::ptrdiff_t pos = s.below(n + 1);
        auto it = v.begin() + pos;
        for (int k = 0, steps = (int)s.below(8); k < steps; k++) {
            std::ptrdiff_t to = s.below(n + 1), d = to - pos;
            switch (s.below(6)) {
            case 0: {
                auto &self = (it += d);
                if (&self != &it) pbt::fail("+= does not return itself");
                pos = to;
                break;
            }
            case 1: {
                auto &self = (it -= -d);
                if (&self != &it) pbt::fail("-= does not return itself");
                pos = to;
                break;
            }
            case 2: {
                auto other = it + d;
                if ((other == it) != (d == 0) || (other != it) == (d == 0)) pbt::fail("comparison after + %td", d);
                if ((size_t)to < n) expect(*other, w[to], "it + d", to, n);
                if (!(other == v.begin() + to)) pbt::fail("it + d is not begin() + position");
                break;
            }
            case 3: {
                auto other = it - (-d);
                if ((other == it) != (d == 0) || (other != it) == (d == 0)) pbt::fail("comparison after - %td", -d);
                if ((size_t)to < n) expect(*other, w[to], "it - d", to, n);
                if (!(other == v.begin() + to)) pbt::fail("it - d is not begin() + position");
                break;
            }
            case 4:
                if ((size_t)to < n) expect(it[d], w[to], "it[d]", to, n);
                break;
            case 5: {
                std::reverse_iterator<EntityView::iterator> r(it);
                if (pos > 0) expect(*r, w[pos - 1], "reverse_iterator(it)", pos - 1, n);
                if (!(r.base() == it)) pbt::fail("reverse_iterator base");
                auto r2 = v.rbegin() + to;
                if ((size_t)to < n) expect(*r2, w[n - 1 - to], "rbegin() + d", to, n);
                if ((r2 == v.rend()) != ((size_t)to == n)) pbt::fail("rbegin() + %td compared with rend()", to);
                if ((size_t)to < n) expect(v.rbegin()[to], w[n - 1 - to], "rbegin()[d]", to, n);
                break;
            }
            }
            auto copy = it;
            if (!(copy == it) || copy != it) pbt::fail("a copied iterator differs");
            if ((size_t)pos < n) expect(*copy, w[pos], "copied iterator", pos, n);
            for (std::ptrdiff_t p : {(std::ptrdiff_t)0, pos, (std::ptrdiff_t)n, to}) {
                bool same = p == pos;
                auto o = v.begin() + p;
                if ((o == it) != same || (o != it) == same || (it == o) != same)
                    pbt::fail("comparing positions %td and %td of a view of size %zu", p, pos, n);
            }
        }
        // algorithms
        if (n) {
            Entity key = w[s.below(n)];
            auto f = std::find(w.begin(), w.end(), key);
            bool found = false;
            size_t at = 0;
            for (auto i = v.begin(); i != v.end(); i++, at++) {
                if (*i == key) {
                    found = true;
                    break;
                }
            }
            if (!found || at != (size_t)(f - w.begin())) pbt::fail("searching finds another position");
            uint64_t sum = std::accumulate(v.begin(), v.end(), (uint64_t)0, [](uint64_t a, const Entity &e) {
                return a * 31 + (uint64_t)e;
            });
            uint64_t want = std::accumulate(w.begin(), w.end(), (uint64_t)0, [](uint64_t a, const Entity &e) {
                return a * 31 + (uint64_t)e;
            });
            if (sum != want) pbt::fail("std::accumulate over the view differs");
        }
        // iterators of views over different lists never compare equal
        for (auto &o : all) {
            if (o.list != m.list && (o.view.begin() == v.begin() || !(o.view.end() != v.end())))
                pbt::fail("iterators over different lists compare equal");
        }
        if (CHECKED) {
            for (int k = 0; k < 3; k++) {
                size_t i = k == 0 ? n : oddSize(s, n);
                if (i < n) i = n;
                if (!throwsRuntime([&] {
                        volatile auto x = v[i].index;
                        (void)x;
                    }))
                    pbt::fail("operator[](%zu) of a view of size %zu does not throw", i, n);
            }
            // positions next to the range, within the underlying list where it is longer
            for (std::ptrdiff_t p : {(std::ptrdiff_t)n, (std::ptrdiff_t)n + 1 + (std::ptrdiff_t)s.below(20),
                     (std::ptrdiff_t)-1, (std::ptrdiff_t)-1 - (std::ptrdiff_t)s.below(20)}) {
                if (!throwsRuntime([&] {
                        auto x = v.begin();
                        x += p;
                        volatile auto y = (*x).index;
                        (void)y;
                    }))
                    pbt::fail("*(begin() + %td) of a view of size %zu does not throw", p, n);
                if (!throwsRuntime([&] {
                        auto x = v.begin() + p;
                        volatile auto y = x->index;
                        (void)y;
                    }))
                    pbt::fail("(begin() + %td)-> of a view of size %zu does not throw", p, n);
                std::ptrdiff_t from = s.below(n + 1);
                if (!throwsRuntime([&] {
                        auto x = v.begin() + from;
                        volatile auto y = x[p - from].index;
                        (void)y;
                    }))
                    pbt::fail("(begin() + %td)[%td] of a view of size %zu does not throw", from, p - from, n);
            }
            if (!throwsRuntime([&] {
                    volatile auto y = (*v.end()).index;
                    (void)y;
                }))
                pbt::fail("*end() does not throw");
            if (!throwsRuntime([&] {
                    auto r = v.rend();
                    volatile auto y = (*r).index;
                    (void)y;
                }))
                pbt::fail("*rend() does not throw");
            pbt::count("out-of-range accesses", 16);
        }
    }
} // namespace

void pbt_init() {}

void pbt_case(pbt::Src &s) {
    // underlying lists
    std::vector<std::unique_ptr<std::vector<Entity>>> lists;
    std::vector<std::vector<Entity>> models;
    size_t nlists = 1 + s.below(3);
    for (size_t l = 0; l < nlists; l++) {
        size_t n = s.weighted({2, 3, 4, 1}) == 3 ? s.below(300) : s.below(12);
        auto v = std::make_unique<std::vector<Entity>>();
        bool dup = s.chance(1, 4);
        for (size_t i = 0; i < n; i++) {
            if (s.chance(1, 6)) {
                v->emplace_back(); // null entry
            } else {
                v->emplace_back((uint32_t)(dup ? s.below(3) : l * 1000 + i), (uint32_t)(1 + (dup ? 0 : s.below(4))), (uint8_t)1);
            }
        }
        models.push_back(*v);
        lists.push_back(std::move(v));
    }
    PLOG("%zu lists, sizes %zu %zu %zu\n", nlists, models[0].size(), nlists > 1 ? models[1].size() : 0,
        nlists > 2 ? models[2].size() : 0);

    std::vector<Made> views;
    views.reserve(64);
    int deepest = 0;
    bool rejected = false;
    s.stepsLeft = 24;
    while (s.more(10) && views.size() < 60) {
        switch (s.weighted({3, 5, 12, 2, 1, 1})) {
        case 0: {
            int l = (int)s.below(nlists);
            PLOG("  view %zu: whole list %d\n", views.size(), l);
            EntityView v = *lists[l]; // implicit conversion, as lock.Entities() does
            views.push_back(Made{v, models[l], 0, l, 0});
            break;
        }
        case 1: {
            int l = (int)s.below(nlists);
            size_t n = models[l].size();
            size_t a, b;
            if (!CHECKED || s.chance(4, 5)) {
                a = s.below(n + 1);
                b = a + s.below(n - a + 1);
            } else {
                a = oddSize(s, n);
                b = oddSize(s, n);
            }
            bool bad = a > n || b > n || a > b;
            PLOG("  view %zu: list %d [%zu, %zu)%s\n", views.size(), l, a, b, bad ? " must throw" : "");
            try {
                EntityView v(*lists[l], a, b);
                if (bad) pbt::fail("EntityView(list of %zu, %zu, %zu) does not throw", n, a, b);
                views.push_back(Made{v, std::vector<Entity>(models[l].begin() + a, models[l].begin() + b), a, l, 0});
            } catch (const std::runtime_error &e) {
                if (!bad) pbt::fail("EntityView(list of %zu, %zu, %zu) throws: %s", n, a, b, e.what());
                rejected = true;
            }
            break;
        }
        case 2: {
            if (views.empty()) break;
            size_t k = s.below(views.size());
            const Made &p = views[k];
            if (p.list < 0) break;
            size_t n = p.model.size();
            size_t off = !CHECKED || s.chance(4, 5) ? s.below(n + 1) : oddSize(s, n);
            bool dflt = s.chance(1, 3);
            size_t cnt = s.chance(1, 2) ? s.below(n + 1) : oddSize(s, n);
            bool bad = off > n;
            if (dflt)
                PLOG("  view %zu: view %zu.subview(%zu)%s\n", views.size(), k, off, bad ? " must throw" : "");
            else
                PLOG("  view %zu: view %zu.subview(%zu, %zu)%s\n", views.size(), k, off, cnt, bad ? " must throw" : "");
            try {
                EntityView v = dflt ? p.view.subview(off) : p.view.subview(off, cnt);
                if (bad) pbt::fail("subview(%zu, %zu) of a view of size %zu does not throw", off, cnt, n);
                size_t len = dflt ? n - off : std::min(cnt, n - off);
                Made m{v, std::vector<Entity>(p.model.begin() + off, p.model.begin() + off + len), p.offset + off, p.list,
                    p.depth + 1};
                deepest = std::max(deepest, m.depth);
                views.push_back(std::move(m));
            } catch (const std::runtime_error &e) {
                if (!bad) pbt::fail("subview(%zu, %zu) of a view of size %zu throws: %s", off, cnt, n, e.what());
                rejected = true;
            }
            break;
        }
        case 3: {
            // copy or assign
            if (views.empty()) break;
            size_t k = s.below(views.size());
            PLOG("  view %zu: copy of view %zu\n", views.size(), k);
            EntityView v;
            v = views[k].view;
            Made m{v, views[k].model, views[k].offset, views[k].list, views[k].depth};
            views.push_back(m);
            break;
        }
        case 4: {
            PLOG("  view %zu: default\n", views.size());
            views.push_back(Made{EntityView(), {}, 0, -1, 0});
            if (CHECKED && !throwsRuntime([] { EntityView().subview(1); }))
                pbt::fail("subview(1) of a default view does not throw");
            break;
        }
        case 5: {
            // the list grows, as the lists of a transaction do: views keep their size and contents
            int l = (int)s.below(nlists);
            size_t k = 1 + s.below(60);
            PLOG("  list %d grows by %zu\n", l, k);
            for (size_t i = 0; i < k; i++)
                lists[l]->emplace_back((uint32_t)(50000 + i), 9, (uint8_t)1);
            models[l] = *lists[l];
            break;
        }
        }
    }
    // a list of a real instance, with entries that became null
    std::optional<World> ecs;
    if (s.chance(1, 8)) {
        ecs.emplace();
        std::vector<Entity> made;
        {
            auto tx = ecs->StartTransaction<Tecs::AddRemove>();
            size_t n = s.below(30);
            for (size_t i = 0; i < n; i++) {
                made.push_back(tx.NewEntity());
                if (s.chance(2, 3)) made.back().Set<VA>(tx, (int)i);
            }
            auto list = tx.Entities();
            auto withA = tx.EntitiesWith<VA>();
            std::vector<Entity> wantAll = made, wantA;
            for (auto &e : made)
                if (e.Has<VA>(tx)) wantA.push_back(e);
            for (size_t i = 0; i < n; i++) {
                if (!s.chance(1, 4)) continue;
                Entity e = made[i];
                for (auto &x : wantA)
                    if (x == e) x = Entity();
                wantAll[i] = Entity();
                e.Destroy(tx);
            }
            for (size_t i = 0, k = s.below(20); i < k; i++)
                tx.NewEntity().Set<VA>(tx, 1);
            std::vector<Made> mine = {Made{list, wantAll, 0, 100, 0}, Made{withA, wantA, 0, 101, 0}};
            for (int i = 0; i < 2; i++) {
                size_t off = s.below(mine[i].model.size() + 1), cnt = s.below(12);
                size_t len = std::min(cnt, mine[i].model.size() - off);
                auto &m = mine[i].model;
                mine.push_back(Made{mine[i].view.subview(off, cnt),
                    std::vector<Entity>(m.begin() + off, m.begin() + off + len), off, 100 + i, 1});
            }
            for (auto &m : mine)
                compare(s, m, mine);
            pbt::label("lists of an instance");
        }
    }
    for (auto &m : views)
        compare(s, m, views);
    for (auto &m : views)
        for (size_t i = 0; i < m.model.size(); i++)
            if (&m.view[i] != &(*lists[m.list])[m.offset + i]) pbt::fail("operator[] refers to another element of the list");
    if (deepest) pbt::label("nested subviews");
    if (deepest >= 3) pbt::label("three levels of subviews");
    if (rejected) pbt::label("rejected ranges");
    bool big = false;
    for (auto &m : views)
        big |= m.model.size() >= 2 && m.offset > 0;
    if (big && deepest) pbt::nontrivial();
}
