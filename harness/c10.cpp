// C10: continuing training composes.  From every state reachable within a number of calls (and from
// the unfitted one), for all epoch splits and data: one call for a+b epochs, a then b, and b single
// epochs in a row end in the same complete state.
#include "life.hpp"
using namespace vf;

template<class E> void run(Cfg const & c, int depth, unsigned maxep)
{
    Life<E> life(c);
    using S = typename Tr<E>::Sample; using State = typename Tr<E>::State;
    bool const cls = Tr<E>::cls;
    auto A = life.A(), B = life.B(), C = life.C(), D = life.D();
    life.fit(A, 2, 1); life.fit(B, 3, 1); life.fit(C, 2, 0);
    life.pfit(A, 2, 1); life.pfit(B, 4, 1); life.pfit(D, 2, 3);
    std::vector<Set> sets{A, B, C, D};
    auto state_of = [](E & e){ auto p = e.clone_state(); return full(*p); };
    long compared = 0;
    // data of the sets' shapes whose labels fit the state
    auto fits = [&](State const & st, Set const & d)
    {
        auto [r, f] = ta_shape(st);
        if (r == 0) return true;
        if (f != d.F) return false;
        if (!cls) return true;
        int const L = std::get<int>(st.m_params.at("number_of_labels"));
        return *std::max_element(d.y.begin(), d.y.end()) < L;
    };
    life.explore(depth, [&](State const & st, std::string const & path)
    {
        bool const fitted = ta_shape(st).first != 0;
        for (auto & d : sets)
        {
            auto X = mk<S>(d.X);
            if (!fits(st, d))
            {
                E e(st); auto before = full(st);
                auto s = do_pfit(e, X, d.y, d.L, 1);
                CHECK(s.first == T::S_VALUE_ERROR, "[%s] partial_fit with %s of another shape: status %d", path.c_str(), d.name.c_str(), (int)s.first);
                CHECK(state_of(e) == before, "[%s] refused partial_fit changed the estimator", path.c_str());
                traces();
                continue;
            }
            note("%s; %s", path.c_str(), d.name.c_str());
            // all splits of n epochs
            for (unsigned n = 0; n <= maxep; ++n)
            {
                E whole(st); ok(do_pfit(whole, X, d.y, d.L, n), "partial_fit");
                auto const want = state_of(whole);
                if (!fitted)
                {
                    E f(st); ok(do_fit(f, X, d.y, d.L, n), "fit");
                    CHECK(state_of(f) == want, "partial_fit of an unfitted estimator with %s, %u epochs, differs from fit: %s", d.name.c_str(), n, state_of(f).diff(want).c_str());
                    traces();
                }
                else if (n == 0)
                    CHECK(want == full(st), "[%s] partial_fit for 0 epochs changed the estimator: %s", path.c_str(), want.diff(full(st)).c_str());
                for (unsigned a = 0; a <= n; ++a)
                {
                    E e(st);
                    ok(do_pfit(e, X, d.y, d.L, a), "partial_fit"); ok(do_pfit(e, X, d.y, d.L, n - a), "partial_fit");
                    CHECK(state_of(e) == want, "[%s] partial_fit with %s for %u and %u epochs differs from %u epochs: %s", path.c_str(), d.name.c_str(), a, n - a, n, state_of(e).diff(want).c_str());
                    E f(st), g(st);
                    ok(do_fit(f, X, d.y, d.L, a), "fit"); ok(do_pfit(f, X, d.y, d.L, n - a), "partial_fit");
                    ok(do_fit(g, X, d.y, d.L, n), "fit");
                    CHECK(state_of(f) == state_of(g), "[%s] fit with %s for %u, then partial_fit for %u epochs, differs from fit for %u: %s", path.c_str(), d.name.c_str(), a, n - a, n, state_of(f).diff(state_of(g)).c_str());
                    traces(2); compared += 2;
                }
                E e(st);
                for (unsigned i = 0; i < n; ++i) ok(do_pfit(e, X, d.y, d.L, 1), "partial_fit");
                if (n || fitted) CHECK(state_of(e) == want, "[%s] %u calls of partial_fit with %s differ from one with %u epochs", path.c_str(), n, d.name.c_str(), n);
                // a continued estimator that was saved by copying its state in between
                if (n >= 2)
                {
                    E f(st); ok(do_pfit(f, X, d.y, d.L, 1), "partial_fit");
                    auto p = f.clone_state(); E g(*p);
                    ok(do_pfit(g, X, d.y, d.L, n - 1), "partial_fit");
                    CHECK(state_of(g) == want, "[%s] continuing on a copy differs", path.c_str());
                    traces();
                }
            }
            // once fitted, the maximum number of labels has no effect
            if (cls && fitted)
            {
                std::vector<FullState> r;
                for (int L : {-5, 0, 1, d.L, 9, std::numeric_limits<int>::max()}) { E e(st); ok(do_pfit(e, X, d.y, L, 1), "partial_fit"); r.push_back(state_of(e)); }
                for (auto & q : r) CHECK(q == r[0], "[%s] max_number_of_labels changes partial_fit of a fitted estimator", path.c_str());
                traces(r.size());
            }
        }
        // targets at and beyond the limit of the fitted shape
        if (fitted)
        {
            int const F = ta_shape(st).second;
            int const lim = cls ? std::get<int>(st.m_params.at("number_of_labels")) - 1 : c.thr;
            auto X = mk<S>(std::vector<ivec>{ivec(F, 0), ivec(F, 1)});
            for (int v : {-1, 0, lim, lim + 1, lim + 2, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()})
                for (int pos : {0, 1})
                {
                    E e(st); ivec y(2, 0); y[pos] = v;
                    auto s = do_pfit(e, X, y, 1000, 1);
                    bool const want = v >= 0 && v <= lim;
                    CHECK((s.first == T::S_OK) == want, "[%s] partial_fit of a target of %d with limit %d: status %d", path.c_str(), v, lim, (int)s.first);
                    if (!want) CHECK(s.first == T::S_VALUE_ERROR && state_of(e) == full(st), "[%s] refused target %d: status %d or changed state", path.c_str(), v, (int)s.first);
                    traces();
                }
            for (int g : {0, 1, F - 1, F + 1, F + 64, F + 512})
                if (g >= 0 && g != F)
                {
                    E e(st);
                    auto s = do_pfit(e, mk<S>(std::vector<ivec>{ivec(g, 0)}), ivec{0}, 2, 1);
                    CHECK(s.first == T::S_VALUE_ERROR && state_of(e) == full(st), "[%s] partial_fit with %d features: status %d or changed state", path.c_str(), g, (int)s.first);
                    traces();
                }
        }
    });
    count("epoch splits compared", compared);
}

// many epochs: one call for n of them, and n calls for one, with splits in between
template<class E> void long_life(Cfg const & c, unsigned n)
{
    LongLife<E> l(c, 0);
    for (size_t k = 0; k < l.sets.size(); ++k)
    {
        auto const & d = l.sets[k];
        E single = make<E>(c);
        std::vector<FullState> at;      // after i epochs
        ok(do_fit(single, l.X[k], d.y, d.L, 0), "fit"); at.push_back(full(*single.clone_state()));
        for (unsigned i = 1; i <= n; ++i) { note("%s %s: epoch %u", Tr<E>::name, d.name.c_str(), i); ok(do_pfit(single, l.X[k], d.y, d.L, 1), "partial_fit"); at.push_back(full(*single.clone_state())); transitions(); }
        for (unsigned m = 1; m <= n; ++m)
        {
            bool round = false;
            for (unsigned r : {1u, 10u, 50u, 100u, 128u, 250u, 256u, 500u, 512u, 1000u, 1024u, 2000u, 2048u, 4096u}) round |= m + 1 >= r && m <= r + 1;
            if (!round && m + 1 < n) continue;
            note("%s %s: %u epochs", Tr<E>::name, d.name.c_str(), m);
            E e = make<E>(c); ok(do_fit(e, l.X[k], d.y, d.L, m), "fit");
            auto f = full(*e.clone_state()).diff(at[m]);
            CHECK(f.empty(), "fit of %s for %u epochs differs from %u calls for one: %s", d.name.c_str(), m, m, f.c_str());
            E g = make<E>(c); ok(do_pfit(g, l.X[k], d.y, d.L, m / 3), "partial_fit"); ok(do_pfit(g, l.X[k], d.y, d.L, m - m / 3), "partial_fit");
            f = full(*g.clone_state()).diff(at[m]);
            CHECK(f.empty(), "%u and %u epochs of %s differ from %u calls for one: %s", m / 3, m - m / 3, d.name.c_str(), m, f.c_str());
            traces(2); transitions(3);
        }
        states(n);
    }
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        for (auto & [n, c] : life_cfgs(Tr<E>::cls))
        {
            Cfg cc = c;
            int const depth = tiered(5, 8); unsigned const ep = tiered(5, 9);
            add(fmt("%s/long life", lname<E>(n).c_str()), [=](){ long_life<E>(cc, tiered(1100, 4200)); });
            add(fmt("%s/depth%d/epochs%u", lname<E>(n).c_str(), depth, ep), [=](){ run<E>(cc, depth, ep); });
        }
    });
}
