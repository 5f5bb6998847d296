// C21: queries have no effect.  In every state reachable within a number of calls: every sequence of
// queries up to a length on one live estimator gives each time the answers a fresh copy gives, and
// leaves state, parameters and all later training as they were; batches in every order.
#include "life.hpp"
using namespace vf;

template<class E> struct Query { std::string name; std::function<std::string(E &)> ask; };

template<class R, class F> std::string answer(T::Either<T::status_message_t, R> const & r, F show_)
{
    transitions();
    return r.isLeft ? fmt("refused %d", (int)r.leftValue.first) : show_(r.rightValue);
}
static std::string one(int v) { return std::to_string(v); }
template<class V> static std::string many(V const & v) { return show(to_ivec(v)); }

template<class E> std::vector<Query<E>> queries(int F, int L, int thr, bool bad)
{
    using S = typename Tr<E>::Sample;
    std::vector<Query<E>> q;
    std::vector<ivec> X;
    for (int v = 0; v < 4; ++v) { ivec x(F); for (int i = 0; i < F; ++i) x[i] = (i % 3 == 2 ? v ^ (v >> 1) : v >> i % 2) & 1; X.push_back(x); }
    auto sx = mk<S>(X);
    ivec y; for (int i = 0; i < 4; ++i) y.push_back(i % L);
    auto rx = sx; std::reverse(rx.begin(), rx.end());
    q.push_back({"predict one", [=](E & e){ return answer(e.predict(sx[3]), one); }});
    q.push_back({"predict another", [=](E & e){ return answer(e.predict(sx[0]), one); }});
    q.push_back({"predict batch", [=](E & e){ return answer(e.predict(sx), [](auto & v){ return many(v); }); }});
    q.push_back({"predict reversed batch", [=](E & e){ return answer(e.predict(rx), [](auto & v){ return many(v); }); }});
    if constexpr (Tr<E>::cls)
    {
        q.push_back({"decision_function one", [=](E & e){ return answer(e.decision_function(sx[1]), [](auto & v){ return many(v); }); }});
        q.push_back({"decision_function batch", [=](E & e){ return answer(e.decision_function(sx), [](auto & v){ std::string s; for (auto & r : v) s += many(r) + ";"; return s; }); }});
        q.push_back({"evaluate", [=](E & e){ return answer(e.evaluate(sx, y), [](auto v){ return fmt("%a", (double)v); }); }});
    }
    q.push_back({"read_params", [=](E & e){ transitions(); return pkey(e.read_params()); }});
    q.push_back({"clone_state", [=](E & e){ transitions(); auto p = e.clone_state(); return full(*p).key(); }});
    if (bad)
    {
        auto odd = mk<S>(std::vector<ivec>{ivec(F, 1), ivec(F + 1, 0)});
        q.push_back({"predict a ragged batch", [=](E & e){ return answer(e.predict(odd), [](auto & v){ return many(v); }); }});
        q.push_back({"predict a row too long", [=](E & e){ return answer(e.predict(odd[1]), one); }});
        if constexpr (Tr<E>::cls) q.push_back({"evaluate with too few labels", [=](E & e){ return answer(e.evaluate(sx, ivec{0}), [](auto v){ return fmt("%a", (double)v); }); }});
    }
    return q;
}

template<class E> std::string train_on(E & e, int F, int thr)
{
    using S = typename Tr<E>::Sample;
    auto X = mk<S>(std::vector<ivec>{ivec(F, 0), ivec(F, 1), ivec(F, 1)});
    X[2].size(); ok(do_pfit(e, X, Tr<E>::cls ? ivec{0, 1, 0} : ivec{0, thr, thr / 2}, 2, 2), "partial_fit");
    auto p = e.clone_state();
    return full(*p).key();
}

template<class E> void run(Cfg const & c, int depth, int len)
{
    using State = typename Tr<E>::State; using S = typename Tr<E>::Sample;
    Life<E> life(c);
    auto A = life.A(), B = life.B(), C = life.C(), D = life.D();
    life.fit(A, 2, 1); life.fit(B, 3, 2); life.fit(C, 2, 1);
    life.pfit(A, 2, 1); life.pfit(D, 2, 3); life.pfit(C, 2, 1); life.pfit(B, 5, 0);
    life.explore(depth, [&](State const & st, std::string const & path)
    {
        bool const fitted = ta_shape(st).first != 0;
        int const F = fitted ? ta_shape(st).second : 2;
        int L = 2;
        if constexpr (Tr<E>::cls) if (fitted) { E e(st); auto v = take(e.decision_function(mk<S>(ivec(F, 0))), "decision_function"); L = (int)v.size(); }
        auto Q = queries<E>(F, L, c.thr, true);
        auto const before = full(st);
        std::vector<std::string> want;
        for (auto & q : Q) { E e(st); want.push_back(q.ask(e)); }
        std::string const later = [&]{ E e(st); return train_on(e, F, c.thr); }();
        // all sequences
        std::vector<int> seq;
        std::function<void()> rec = [&]
        {
            if (!seq.empty())
            {
                E e(st);
                auto names = [&]{ std::string s; for (int i : seq) s += Q[i].name + ", "; return s; };
                for (size_t k = 0; k < seq.size(); ++k)
                {
                    auto got = Q[seq[k]].ask(e);
                    if (got != want[seq[k]]) fail("[%s] then %s: query %zu answers %s, without the others %s", path.c_str(), names().c_str(), k, got.c_str(), want[seq[k]].c_str());
                }
                { auto p = e.clone_state(); CHECK(full(*p) == before && *p == st, "[%s] then %s: the state changed: %s", path.c_str(), names().c_str(), full(*p).diff(before).c_str()); }
                CHECK(pkey(e.read_params()) == before.params, "[%s] then %s: parameters changed", path.c_str(), names().c_str());
                if (seq.size() < 3) CHECK(train_on(e, F, c.thr) == later, "[%s] then %s: training goes on differently", path.c_str(), names().c_str());
                traces();
            }
            if ((int)seq.size() == len) return;
            for (int i = 0; i < (int)Q.size(); ++i) { seq.push_back(i); rec(); seq.pop_back(); }
        };
        rec();
        // queries between training calls
        {
            E e(st), f(st);
            for (int i = 0; i < 3; ++i)
            {
                for (auto & q : Q) q.ask(e);
                auto a = train_on(e, F, c.thr), b = train_on(f, F, c.thr);
                CHECK(a == b, "[%s] training call %d differs when all queries were made before", path.c_str(), i);
            }
        }
        if (!fitted) return;
        // a sample's answer in every batch: all sub-multisets of up to 3 samples in every order, and permutations of 4
        std::vector<ivec> X;
        for (int v = 0; v < 4; ++v) { ivec x(F); for (int i = 0; i < F; ++i) x[i] = (i % 3 == 2 ? v ^ (v >> 1) : v >> i % 2) & 1; X.push_back(x); }
        auto sx = mk<S>(X);
        ivec alone; std::vector<ivec> score;
        for (auto & x : sx)
        {
            E e(st); alone.push_back(take(e.predict(x), "predict"));
            if constexpr (Tr<E>::cls) { E g(st); score.push_back(to_ivec(take(g.decision_function(x), "decision_function"))); }
        }
        E e(st);
        for (int n = 1; n <= 4; ++n)
            for (int code = 0; code < (1 << 2 * n); ++code)
            {
                std::vector<S> b; ivec w, idx;
                for (int k = 0; k < n; ++k) { int i = code >> 2 * k & 3; b.push_back(sx[i]); w.push_back(alone[i]); idx.push_back(i); }
                auto r = to_ivec(take(e.predict(b), "predict"));
                transitions();
                CHECK(r == w, "[%s] batch of samples %s predicted %s, each alone %s", path.c_str(), show(idx).c_str(), show(r).c_str(), show(w).c_str());
                if constexpr (Tr<E>::cls)
                {
                    auto v = take(e.decision_function(b), "decision_function");
                    CHECK((int)v.size() == n, "decision_function of %d samples gives %zu answers", n, v.size());
                    for (int k = 0; k < n; ++k) CHECK(to_ivec(v[k]) == score[idx[k]], "[%s] batch of samples %s: score of sample %d depends on the batch", path.c_str(), show(idx).c_str(), k);
                    transitions();
                }
                traces();
            }
        CHECK([&]{ auto p = e.clone_state(); return full(*p) == before; }(), "[%s] batches changed the state", path.c_str());
    });
}

// a large model and long batches
template<class E> void large(Cfg c, int F, int L, int n)
{
    using S = typename Tr<E>::Sample;
    auto d = make_set("big", F, L, n, Tr<E>::cls, c.thr);
    auto X = mk<S>(d.X);
    E e = make<E>(c);
    ok(do_fit(e, X, d.y, L, 3), "fit");
    auto p0 = e.clone_state(); auto const before = full(*p0);
    auto all = to_ivec(take(e.predict(X), "predict"));
    for (int rep = 0; rep < 2; ++rep)
        for (int i = 0; i < n; ++i)
        {
            CHECK((int)take(e.predict(X[i]), "predict") == all[i], "sample %d alone differs from the batch", i);
            std::vector<S> rot(X.begin() + i, X.end()); rot.insert(rot.end(), X.begin(), X.begin() + i);
            auto r = to_ivec(take(e.predict(rot), "predict"));
            for (int k = 0; k < n; ++k) CHECK(r[k] == all[(i + k) % n], "sample %d in a batch starting at %d differs", (i + k) % n, i);
            transitions(2); traces();
        }
    auto p1 = e.clone_state();
    CHECK(full(*p1) == before, "predictions changed the state");
    states();
}

// queries all along, and thousands of them at a time
template<class E> void long_life(Cfg const & c, int n)
{
    using S = typename Tr<E>::Sample;
    LongLife<E> l(c, n);
    l.with("queries", [&](E & e, int i)
    {
        if (i == 0) return;
        auto const & d = l.sets[l.set(i - 1)]; auto const & X = l.X[l.set(i - 1)];
        E f(*e.clone_state());
        int const times = i % 60 == 59 ? tiered(600, 6000) : 3;
        auto ask = [&](E & g, int q) -> std::string
        {
            if constexpr (Tr<E>::cls)
            {
                if (q == 2) return answer(g.evaluate(X, d.y), [](auto v){ return fmt("%a", (double)v); });
                if (q == 3) return answer(g.decision_function(X), [](auto & v){ std::string s; for (auto & r : v) s += many(r) + ";"; return s; });
                if (q == 4) return answer(g.decision_function(X[0]), [](auto & v){ return many(v); });
            }
            return q % 2 ? answer(g.predict(X[0]), one) : answer(g.predict(X), [](auto & v){ return many(v); });
        };
        std::string want[5]; for (int q = 0; q < 5; ++q) want[q] = ask(f, q);
        for (int t = 0; t < times; ++t) { int const q = (t + i) % 5; auto const a = ask(e, q); CHECK(a == want[q], "query number %d after training %d answers %.100s, a fresh copy %.100s", t, i, a.c_str(), want[q].c_str()); }
    });
}

// long batches: every answer is that of the sample alone, in any order
template<class E> void long_batch(Cfg c, int F, int L, int n)
{
    using S = typename Tr<E>::Sample;
    auto d = make_set("big", F, L, 24, Tr<E>::cls, c.thr);
    E e = make<E>(c);
    ok(do_fit(e, mk<S>(d.X), d.y, L, 3), "fit");
    auto const before = full(*e.clone_state());
    std::vector<ivec> xs; ivec y;
    for (int i = 0; i < n; ++i) { ivec x(F); for (int f = 0; f < F; ++f) x[f] = ((unsigned)(i * 2654435761u + f * 40503u) >> 11) & 1; xs.push_back(x); y.push_back(i % L); }
    auto X = mk<S>(xs);
    ivec alone; std::vector<ivec> score; int right = 0;
    for (int i = 0; i < n; ++i)
    {
        alone.push_back((int)take(e.predict(X[i]), "predict")); right += alone[i] == y[i];
        if constexpr (Tr<E>::cls) score.push_back(to_ivec(take(e.decision_function(X[i]), "decision_function")));
    }
    for (int back = 0; back < 2; ++back)
    {
        note("%d samples of %d features", n, F);
        auto r = to_ivec(take(e.predict(X), "predict"));
        CHECK((int)r.size() == n, "%zu answers for %d samples", r.size(), n);
        for (int i = 0; i < n; ++i) CHECK(r[i] == alone[back ? n - 1 - i : i], "sample %d in a batch of %d differs from the sample alone", i, n);
        if constexpr (Tr<E>::cls)
        {
            auto v = take(e.decision_function(X), "decision_function");
            CHECK((int)v.size() == n, "%zu scores for %d samples", v.size(), n);
            for (int i = 0; i < n; ++i) CHECK(to_ivec(v[i]) == score[back ? n - 1 - i : i], "score of sample %d in a batch of %d differs from the sample alone", i, n);
            double const a = take(e.evaluate(X, y), "evaluate");
            CHECK(std::fabs(a * n - right) < 1e-3 + n * 1e-6, "accuracy %.9g of %d samples, %d are right", a, n, right);
        }
        std::reverse(X.begin(), X.end()); std::reverse(y.begin(), y.end());
        transitions(3);
    }
    CHECK(full(*e.clone_state()) == before, "predictions changed the state");
    traces(n); states();
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        for (auto & [n, c] : life_cfgs(Tr<E>::cls))
        {
            Cfg cc = c;
            int const depth = tiered(3, 4), len = 2;
            add(fmt("%s/long life", lname<E>(n).c_str()), [=](){ long_life<E>(cc, tiered(1200, 5000)); });
            add(fmt("%s/depth%d/queries%d", lname<E>(n).c_str(), depth, len), [=](){ run<E>(cc, depth, len); });
            add(fmt("%s/depth1/queries3", lname<E>(n).c_str()), [=](){ run<E>(cc, 1, tiered(3, 4)); });
        }
        for (auto [F, n] : std::vector<std::pair<int, int>>{{5, 31}, {9, 32}, {9, 33}, {12, 64}, {70, 65}, {12, 100}, {12, 128}, {64, 129}, {12, 255}, {12, 256}, {12, 257}, {130, 300}, {12, 513}, {12, 1000}, {12, 1025}, {12, 4097}, {12, 32769}, {17, 65537}, {17, 100000}, {600, 40}, {1025, 30}, {4100, 20}})
            for (int jobs : {1, 3})
                if (jobs == 1 || n < 5000)
                add(fmt("%s/batch of %d, F=%d jobs=%d", Tr<E>::name, n, F, jobs), [=, F = F, n = n]{ Cfg c; c.clauses = n % 2 ? 20 : 100; c.jobs = jobs; c.thr = 9; c.weighted = n % 3; long_batch<E>(c, F, Tr<E>::cls ? n % 2 ? 3 : 11 : 3, n); });
        for (int F : {1, 63, 64, 65, 130})
            for (int jobs : {1, 3})
                add(fmt("%s/large F=%d jobs=%d", Tr<E>::name, F, jobs), [=]{ Cfg c; c.clauses = 20; c.jobs = jobs; c.thr = 9; c.weighted = F % 2; large<E>(c, F, 3, 24); });
    });
}
