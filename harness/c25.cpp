// C25: no traps.  The complete state graph of small machines trained on a noise-free concept: from
// every state a state that answers everything correctly must be reachable (checked backwards from the
// correct states, over steps executed by the library), and every pair answered wrongly has a step
// that changes the state.
#include "steps.hpp"
#include <deque>
using namespace vf;
using namespace ref;

template<class E> struct Graph
{
    Cfg cfg; int F, L; Stepper<E> S; std::vector<ivec> X; ivec y; int C, cells; long long V, W, total;
    typename Tr<E>::State ps;
    std::vector<char> good;                         // a correct state is reachable
    std::vector<std::vector<uint32_t>> succ;
    std::vector<char> expanded; int level = 0;   // how many draws are tried

    Graph(Cfg c, int F, int L, std::vector<ivec> X, ivec y) : cfg(c), F(F), L(L), S(c, F, L), X(X), y(y), ps(S.st)
    {
        C = S.base().rows / 2; cells = 2 * C * F; V = 2 * cfg.N; W = cfg.weighted ? cfg.maxw : 1;
        total = 1;
        for (int i = 0; i < cells; ++i) total *= V;
        for (int o = 0; o < C; ++o) total *= W;
        CHECK(total <= 1 << 20, "harness: %lld states", total);
        good.assign(total, 0); succ.resize(total); expanded.assign(total, 0);
    }
    Snap dec(long long v) const
    {
        Snap s = S.base();
        for (auto & r : s.ta) for (auto & a : r) { a = (int)(v % V) - cfg.N; v /= V; }
        for (auto & w : s.w) { w = (uint32_t)(v % W); v /= W; }
        return s;
    }
    uint32_t enc(Snap const & s) const
    {
        long long v = 0;
        for (size_t i = s.w.size(); i--; ) { CHECK(s.w[i] < W, "weight out of range"); v = v * W + s.w[i]; }
        for (size_t r = s.ta.size(); r--; ) for (size_t c = s.ta[r].size(); c--; ) { CHECK(s.ta[r][c] >= -cfg.N && s.ta[r][c] < cfg.N, "automaton out of range"); v = v * V + s.ta[r][c] + cfg.N; }
        return (uint32_t)v;
    }
    bool correct(Snap const & s)
    {
        put(ps, s);
        E e(ps);
        auto p = to_ivec(take(e.predict(mk<typename Tr<E>::Sample>(X)), "predict"));
        transitions();
        return p == y;
    }
    // draws tried for one pair; f returns true to stop
    template<class Fn> void steps(Snap const & s, int i, Fn f)
    {
        std::vector<unsigned> rots{0u, 1u, 0xfffffff0u, 0x80000003u};
        if constexpr (Tr<E>::cls)
        {
            int const n = cfg.clauses;
            // all granted first, then all other subsets
            for (int g = (1 << n) - 1; g >= 0; --g)
            {
                std::vector<float> fv(n); for (int k = 0; k < n; ++k) fv[k] = g >> k & 1 ? YES : NO;
                for (auto r : rots) { traces(); if (f(S.run(s, X[i], y[i], {}, r, fv, NO))) return; }
            }
        }
        else
        {
            for (auto r : {0u, 1u, 2u, 3u, 0xfffffff0u, 0xfffffff1u}) { traces(); if (f(S.run(s, X[i], y[i], {}, r, {}, YES))) return; }
            for (int b = 0; b < 32; ++b) { std::vector<unsigned> iv; for (int k = 0; k < 5; ++k) iv.push_back(b >> k & 1); traces(); if (f(S.run(s, X[i], y[i], iv, 0, {}, YES))) return; }
            if (level == 0) return;
            for (int b = 0; b < 256; ++b) { std::vector<unsigned> iv; for (int k = 0; k < 8; ++k) iv.push_back(b >> k & 1); traces(); if (f(S.run(s, X[i], y[i], iv, 0, {}, YES))) return; }
            for (int b = 0; b < 1024; ++b) { std::vector<unsigned> iv; for (int k = 0; k < 5; ++k) { unsigned q = b >> 2 * k & 3; iv.push_back(q < 2 ? q : 0xfffffffcu + q); } traces(); if (f(S.run(s, X[i], y[i], iv, 0, {}, YES))) return; }
        }
    }
    bool known_successor(uint32_t v)
    {
        if (expanded[v] > level) { for (auto t : succ[v]) if (good[t]) return true; return false; }
        Snap s = dec(v);
        auto & list = succ[v];
        for (size_t i = 0; i < X.size(); ++i)
        {
            bool found = false;
            steps(s, (int)i, [&](Snap const & t)
            {
                auto k = enc(t);
                if (good[k]) return found = true;
                if (k != v && std::find(list.begin(), list.end(), k) == list.end()) list.push_back(k);
                return false;
            });
            if (found) { list.clear(); return true; }
        }
        expanded[v] = level + 1;
        return false;
    }
    // answers of the clauses as they count in training (an empty clause is true)
    bool wrong_in_training(Snap const & s, int i) const
    {
        if (!Tr<E>::cls) return response(s, cfg.thr, X[i], 1) != y[i];
        return argmax(scores(s, L, cfg.thr, X[i], 1)) != y[i];
    }
    void run(bool expect_margin)
    {
        std::vector<uint32_t> todo;
        long long ng = 0;
        for (long long v = 0; v < total; ++v) { if (correct(dec(v))) good[v] = 1, ++ng; else todo.push_back((uint32_t)v); }
        CHECK(ng > 0, "harness: no correct state");
        states(total); count("correct states", ng);
        int layer = 0;
        while (!todo.empty())
        {
            std::vector<uint32_t> rest;
            note("%s layer %d, %zu states left", Tr<E>::name, layer, todo.size());
            for (auto v : todo) { if (known_successor(v)) good[v] = 1; else rest.push_back(v); }
            if (rest.size() == todo.size() && level == 0 && !Tr<E>::cls) { level = 1; continue; }
            if (rest.size() == todo.size()) fail("%zu of %lld states cannot reach a correct one, for example %s", rest.size(), total, dec(rest[0]).show().c_str());
            todo.swap(rest); ++layer;
        }
        count("layers", layer);
        // dead ends
        level = 1;
        if (expect_margin)
            for (long long v = 0; v < total; ++v)
            {
                Snap s = dec(v);
                for (size_t i = 0; i < X.size(); ++i)
                {
                    if (!wrong_in_training(s, (int)i)) continue;
                    bool moved = false;
                    steps(s, (int)i, [&](Snap const & t){ return moved = t != s; });
                    CHECK(moved, "%s: sample %s is answered wrongly in training, but no step changes anything", s.show().c_str(), show(X[i]).c_str());
                    count("wrong pairs with a way on");
                }
            }
    }
};
template<class E> void go(Cfg c, int F, int L, std::vector<ivec> X, ivec y) { Graph<E> g(c, F, L, X, y); g.run(true); }

void setup()
{
    std::vector<ivec> const X1{{0}, {1}}, X2{{0, 0}, {1, 0}, {0, 1}, {1, 1}};
    for_classifiers([&](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string n = Tr<E>::name;
        Cfg c; c.clauses = 4; c.thr = 10; c.s = 2.f;
        for (bool boost : {false, true})
            for (float s : {1.f, 1.5f, 3.f})
            {
                Cfg d = c; d.boost = boost; d.s = s;
                auto nn = n + fmt(" boost=%d s=%g", boost, (double)s);
                for (ivec y : {ivec{0, 1}, ivec{1, 0}})
                {
                    auto q = "/y=" + show(y);
                    { Cfg e = d; e.N = 1; add(nn + q + " N=1", [=]{ go<E>(e, 1, 2, X1, y); }); }
                    if (thorough() || (s == 1.5f && y[0] == 0 && boost && Tr<E>::bit)) { Cfg e = d; e.N = 2; add(nn + q + " N=2", [=]{ go<E>(e, 1, 2, X1, y); }); }
                    { Cfg e = d; e.N = 1; e.weighted = true; e.maxw = 3; add(nn + q + " N=1 weighted", [=]{ go<E>(e, 1, 2, X1, y); }); }
                }
                for (ivec y : {ivec{0, 0, 0, 1}, ivec{0, 1, 1, 1}, ivec{0, 1, 0, 1}, ivec{1, 0, 0, 0}})
                {
                    Cfg e = d; e.N = 1;
                    if (!thorough() && (s != 1.5f || boost != (y[0] + y[1] == 1) || y[3] == y[1] )) continue;
                    add(nn + "/two features y=" + show(y), [=]{ go<E>(e, 2, 2, X2, y); });
                }
            }
    });
    for_regressors([&](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string n = Tr<E>::name;
        for (bool boost : {false, true})
            for (std::string loss : {"MAE", "MSE"})
            {
                if (!thorough() && boost == (loss == "MSE")) continue;
                bool const full = thorough() || boost == Tr<E>::bit;
                Cfg c; c.clauses = 2; c.thr = 1; c.boost = boost; c.loss = loss; c.s = 1.5f;
                auto nn = n + fmt(" boost=%d %s", boost, loss.c_str());
                for (ivec y : {ivec{0, 1}, ivec{1, 0}})
                    for (int N : {1, 3}) { Cfg d = c; d.N = N; add(nn + fmt("/one clause N=%d y=", N) + show(y), [=]{ go<E>(d, 1, 2, X1, y); }); }
                for (ivec y : {ivec{0, 0, 0, 1}, ivec{0, 0, 1, 0}, ivec{1, 0, 0, 0}})
                    for (int N : {1, 2}) if (full || N == 1) { Cfg d = c; d.N = N; add(nn + fmt("/one clause two features N=%d y=", N) + show(y), [=]{ go<E>(d, 2, 2, X2, y); }); }
                for (ivec y : {ivec{0, 1, 1, 2}, ivec{0, 1, 1, 1}, ivec{1, 0, 0, 1}})
                    if (full) { Cfg d = c; d.N = 1; d.clauses = 4; d.thr = 2; add(nn + "/two clauses two features y=" + show(y), [=]{ go<E>(d, 2, 2, X2, y); }); }
                { Cfg d = c; d.N = 2; d.weighted = true; d.maxw = 4; d.thr = 3; add(nn + "/weighted clause", [=]{ go<E>(d, 1, 2, X1, {0, 3}); }); }
            }
    });
}
