// C09: fit starts from scratch: from every state reachable within a number of calls, fit ends in the
// state a fresh estimator with the same parameters ends in, and both behave alike afterwards.
#include "life.hpp"
using namespace vf;

template<class E> struct Target { std::string name; Set d; int L; unsigned ep; };

template<class E> void run(Cfg const & c, int depth)
{
    Life<E> life(c);
    using S = typename Tr<E>::Sample;
    auto A = life.A(), B = life.B(), C = life.C(), D = life.D();
    life.fit(A, 2, 1); life.fit(B, 3, 1); life.fit(C, 2, 0); life.fit(B, 5, 0);
    life.pfit(A, 2, 1); life.pfit(B, 4, 1); life.pfit(C, 2, 2); life.pfit(D, 2, 3);
    life.predict(A); life.query(B);
    life.refused();
    std::vector<Target<E>> targets{{"A", A, 2, 1}, {"B", B, 3, 1}, {"C", C, 2, 1}, {"B, 0 epochs", B, 3, 0}, {"A, 5 labels", A, 5, 1}, {"D", D, 2, 2}};
    struct Want { FullState after, later; std::vector<ivec> answers; };
    auto finish = [&](E & e, Target<E> const & t, bool first)
    {
        auto X = mk<S>(t.d.X);
        Want w;
        ok(do_fit(e, X, t.d.y, t.L, t.ep), "fit");
        { auto p = e.clone_state(); w.after = full(*p); }
        w.answers.push_back(to_ivec(take(e.predict(X), "predict")));
        if constexpr (Tr<E>::cls) { auto v = take(e.decision_function(X), "decision_function"); for (auto & q : v) w.answers.push_back(to_ivec(q)); }
        ok(do_pfit(e, X, t.d.y, t.L, 1), "partial_fit");
        { auto p = e.clone_state(); w.later = full(*p); }
        return w;
    };
    std::vector<Want> want;
    for (auto & t : targets) { E e = make<E>(c); want.push_back(finish(e, t, true)); }
    life.explore(depth, [&](typename Tr<E>::State const & st, std::string const & path)
    {
        for (size_t i = 0; i < targets.size(); ++i)
        {
            E e(st);
            note("%s, then fit %s", path.c_str(), targets[i].name.c_str());
            auto w = finish(e, targets[i], false);
            traces(); count("fits compared with a fresh estimator");
            CHECK(w.after == want[i].after, "after [%s] fit %s differs from that of a fresh estimator: %s", path.c_str(), targets[i].name.c_str(), w.after.diff(want[i].after).c_str());
            CHECK(w.answers == want[i].answers, "after [%s] fit %s: predictions differ from a fresh estimator's", path.c_str(), targets[i].name.c_str());
            CHECK(w.later == want[i].later, "after [%s] fit %s: training continues differently: %s", path.c_str(), targets[i].name.c_str(), w.later.diff(want[i].later).c_str());
        }
    });
}

// a fit after a long life
template<class E> void long_life(Cfg const & c, int n)
{
    LongLife<E> l(c, 0);
    std::vector<FullState> want;
    for (size_t k = 0; k < l.sets.size(); ++k) { E f = make<E>(c); ok(do_fit(f, l.X[k], l.sets[k].y, l.sets[k].L, 2), "fit"); want.push_back(full(*f.clone_state())); }
    E e = make<E>(c);
    for (int i = 0; i < n; ++i)
    {
        note("%s: fit after %d trainings", Tr<E>::name, i);
        l.step(e, i);
        for (size_t k = 0; k < l.sets.size(); ++k)
        {
            if ((i + k) % 4 && i % 50) continue;
            E f(*e.clone_state()); ok(do_fit(f, l.X[k], l.sets[k].y, l.sets[k].L, 2), "fit");
            auto d = full(*f.clone_state()).diff(want[k]);
            CHECK(d.empty(), "fit of %s after %d trainings differs from a first fit: %s", l.sets[k].name.c_str(), i + 1, d.c_str());
            traces(); transitions(2);
        }
    }
    // and over and over again, without a copy
    for (int i = 0; i < n; ++i)
    {
        size_t const k = (i * 5 + i / 7) % l.sets.size();
        note("%s: %d fits", Tr<E>::name, i + 1);
        ok(do_fit(e, l.X[k], l.sets[k].y, l.sets[k].L, 2), "fit");
        auto d = full(*e.clone_state()).diff(want[k]);
        CHECK(d.empty(), "fit number %d, of %s, differs from a first fit: %s", i + 1, l.sets[k].name.c_str(), d.c_str());
        transitions(); traces();
    }
    states(n);
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        for (auto & [n, c] : life_cfgs(Tr<E>::cls))
        {
            Cfg cc = c;
            int const depth = tiered(6, 9);
            add(fmt("%s/long life", lname<E>(n).c_str()), [=](){ long_life<E>(cc, tiered(2000, 8000)); });
            add(fmt("%s/depth%d", lname<E>(n).c_str(), depth), [=](){ run<E>(cc, depth); });
        }
    });
}
