// C13: saving and restoring is invisible, in every state reachable within a number of calls, for
// every receiver of the restored state, over the values parameters, automata, weights and generator
// positions can take.
#include "life.hpp"
#include "steps.hpp"
#include <array>
#include "tsetlini_state_json.hpp"
using namespace vf;

template<class E> struct Json
{
    using State = typename Tr<E>::State; using S = typename Tr<E>::Sample;
    std::vector<State> receivers;
    Seen seen;
    Json()
    {
        // unfitted; fitted to another shape with other parameters; fitted, weighted and wide
        { Cfg c; c.clauses = 8; c.seed = 99; receivers.push_back(*make<E>(c).clone_state()); }
        { Cfg c; c.clauses = 12; c.N = 40000; c.weighted = true; c.s = 3.25f; c.seed = 5; c.thr = 9; receivers.push_back(fitted_state<E>(c, 131, 4)); }
        { Cfg c; c.clauses = 4; c.N = 200; c.ctype = "int16"; c.boost = true; c.seed = 6; receivers.push_back(fitted_state<E>(c, 1, 2)); }
    }
    std::string later(State const & st)
    {
        E e(st);
        std::string k;
        bool const fitted = ta_shape(st).first != 0;
        int const F = fitted ? ta_shape(st).second : 3;
        std::vector<ivec> x{ivec(F, 0), ivec(F, 1), ivec(F, 0)};
        for (int i = 0; i < F; ++i) x[2][i] = i % 2;
        auto X = mk<S>(x);
        ivec const y{0, 1, 0};
        if (fitted)
        {
            k += show(to_ivec(take(e.predict(X), "predict")));
            if constexpr (Tr<E>::cls) for (auto & q : take(e.decision_function(X), "decision_function")) k += show(to_ivec(q));
        }
        auto s = do_pfit(e, X, y, 2, 2);
        k += fmt("status%d", (int)s.first);
        auto p = e.clone_state();
        k += full(*p).key();
        if (s.first == T::S_OK) k += show(to_ivec(take(e.predict(X), "predict")));
        return k;
    }
    void check(State const & st, std::string const & path, bool behave = true)
    {
        note("%s", path.c_str());
        auto const want = full(st);
        std::string const js = T::to_json_string(st);
        CHECK(full(st) == want, "[%s] saving changed the state", path.c_str());
        seen.insert(want.key());
        std::string const w = behave ? later(st) : "";
        for (size_t i = 0; i < receivers.size() + 1; ++i)
        {
            State r = i < receivers.size() ? receivers[i] : st;
            try { T::from_json_string(r, js); }
            catch (std::exception const & x) { fail("[%s] restoring throws: %s", path.c_str(), x.what()); }
            transitions(2); traces();
            auto const got = full(r);
            CHECK(got == want, "[%s] restored into receiver %zu: differs in %s", path.c_str(), i, got.diff(want).c_str());
            CHECK(r == st && st == r, "[%s] restored into receiver %zu: does not compare equal", path.c_str(), i);
            CHECK(T::to_json_string(r) == js, "[%s] restored into receiver %zu: saving again gives another text", path.c_str(), i);
            if (behave) CHECK(later(r) == w, "[%s] restored into receiver %zu: behaves differently afterwards", path.c_str(), i);
        }
    }
};

template<class E> void lives(Cfg const & c, int depth)
{
    Life<E> life(c);
    Json<E> j;
    auto A = life.A(), B = life.B(), C = life.C(), D = life.D();
    life.fit(A, 2, 1); life.fit(B, 3, 1); life.fit(C, 2, 0);
    life.pfit(A, 2, 1); life.pfit(B, 4, 1); life.pfit(D, 2, 3); life.pfit(C, 2, 1);
    life.predict(A); life.query(A);
    // saving and restoring is an operation of a life
    life.ops.push_back({"restore", [](E & e)
    {
        auto p = e.clone_state();
        auto js = T::to_json_string(*p);
        typename Tr<E>::State r = *make<E>(Cfg()).clone_state();
        T::from_json_string(r, js);
        e = E(r);
        return T::status_message_t{T::S_OK, ""};
    }});
    life.explore(depth, [&](typename Tr<E>::State const & st, std::string const & path) { j.check(st, path); });
}

// every value class of every parameter
template<class E> void params()
{
    Json<E> j;
    int const BIG = std::numeric_limits<int>::max();
    Cfg base; base.clauses = 4; base.thr = 5; base.N = 5;
    std::vector<std::pair<std::string, Cfg>> cfgs;
    auto var = [&](std::string n, std::function<void(Cfg &)> f) { Cfg c = base; f(c); cfgs.push_back({n, c}); };
    for (unsigned s : {0u, 1u, 2u, 127u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}) var(fmt("seed=%u", s), [=](Cfg & c){ c.seed = s; });
    for (float s : {1.f, 1.0000001f, 1.1f, 2.f, 2.5f, 3.f, 3.9999998f, 10.f, 100.f, 16777217.f, 3.4028235e38f}) var(fmt("s=%a", (double)s), [=](Cfg & c){ c.s = s; });
    for (int v : {1, 2, 127, 128, 255, 256, 32767, 32768, BIG - 1, BIG}) { var(fmt("N=%d", v), [=](Cfg & c){ c.N = v; }); var(fmt("thr=%d", v), [=](Cfg & c){ c.thr = v; }); var(fmt("maxw=%d", v), [=](Cfg & c){ c.maxw = v; c.weighted = true; }); }
    for (int v : {4, 8, 100}) var(fmt("clauses=%d", v), [=](Cfg & c){ c.clauses = v; });
    for (int v : {-1, 1, 2, 3, 16}) var(fmt("jobs=%d", v), [=](Cfg & c){ c.jobs = v; });
    for (int v : {16, 32, 64, 128}) var(fmt("tile=%d", v), [=](Cfg & c){ c.tile = v; });
    for (auto v : {"auto", "int8", "int16", "int32"}) for (int N : {1, 126, 127, 128, 40000}) var(fmt("ctype=%s N=%d", v, N), [=](Cfg & c){ c.ctype = v; c.N = N; });
    for (bool v : {false, true}) { var(fmt("weighted=%d", v), [=](Cfg & c){ c.weighted = v; }); var(fmt("boost=%d", v), [=](Cfg & c){ c.boost = v; }); var(fmt("verbose=%d", v), [=](Cfg & c){ c.verbose = v; }); }
    if (!Tr<E>::cls)
    {
        for (auto l : {"MSE", "MAE", "L1", "L2", "L1+2", "berHu"}) for (float C1 : {0.f, 1e-30f, 0.1f, 0.5f, 1.f}) var(fmt("loss=%s C1=%a", l, (double)C1), [=](Cfg & c){ c.loss = l; c.C1 = C1; });
        for (bool v : {false, true}) var(fmt("bm=%d", v), [=](Cfg & c){ c.bm = v; });
    }
    for (auto & [n, c] : cfgs)
    {
        E e = make<E>(c);
        { auto p = e.clone_state(); j.check(*p, n + ", unfitted"); }
        using S = typename Tr<E>::Sample;
        auto X = mk<S>(std::vector<ivec>{{0, 1, 0}, {1, 1, 0}, {0, 0, 1}});
        ok(do_fit(e, X, ivec{0, 1, 1}, 2, 1), "fit");
        { auto p = e.clone_state(); j.check(*p, n + ", fitted"); }
    }
}

// every value of one automaton and weight, mask positions, generator positions
template<class E> void contents(int F)
{
    Json<E> j;
    for (int N : F == 1 || thorough() ? ivec{1, 127, 128, 300, 32767, 32768, 100000} : ivec{127, 300, 32768})
    {
        Cfg c; c.clauses = 4; c.N = N; c.weighted = true;
        auto st = fitted_state<E>(c, F, 2);
        auto const w = ta_width(st);
        std::vector<int> vals;
        if (w == 1) for (int v = -N; v < N; v += thorough() ? 1 : F == 1 ? 3 : 21) vals.push_back(v);
        else vals = {-N, -N + 1, -257, -256, -255, -129, -128, -127, -2, -1, 0, 1, 126, 127, 128, 255, 256, N - 2, N - 1};
        auto const base = snap(st);
        for (int v : vals)
        {
            if (v < -N || v >= N) continue;
            auto b = base;
            for (int k = 0; k < b.rows; ++k) b.ta[k][(k * 7) % F] = v;
            b.ta[b.rows - 1][F - 1] = v;
            put(st, b);
            j.check(st, fmt("N=%d automata at %d", N, v), v == vals.front());
        }
        for (uint32_t x : {0u, 1u, 255u, 256u, 65535u, 65536u, 0x7ffffffeu})
        {
            auto b = base; for (size_t i = 0; i < b.w.size(); ++i) b.w[i] = i % 2 ? 0 : x;
            put(st, b);
            j.check(st, fmt("N=%d weight %u", N, x), false);
        }
    }
    // one included literal at every position
    Cfg c; c.clauses = 4; c.N = 3;
    auto st = fitted_state<E>(c, F, 2);
    auto b = snap(st);
    for (auto & r : b.ta) for (auto & v : r) v = -1;
    for (int f = 0; f < F; f += F > 60 && !thorough() ? f % 64 < 2 || f % 64 > 60 ? 1 : 7 : 1)
    {
        auto d = b; d.ta[f % d.rows][f] = 0;
        put(st, d);
        j.check(st, fmt("F=%d include at %d", F, f), true);
    }
}
// all sizes
template<class E> void shape(int clauses, int L, int F)
{
    Json<E> j;
    for (int N : {3, 128, 40000, 2147483647}) for (int w : {0, 1})
    {
        Cfg c; c.clauses = clauses; c.N = N; c.weighted = w; c.thr = 50;
        auto st = fitted_state<E>(c, F, L);
        auto b = snap(st);
        ivec x(F); for (int i = 0; i < F; ++i) x[i] = i % 3 == 1;
        vast(b, x, c, clauses + L + F);
        put(st, b);
        j.check(st, fmt("%d clauses, %d labels, %d features, N=%d, weighted %d", clauses, L, F, N, w), true);
    }
}

template<class E> void positions()
{
    Json<E> j;
    Cfg c; c.clauses = 4; c.N = 3;
    auto st = fitted_state<E>(c, 3, 2);
    unsigned const n = st.igen.MTSZ * st.igen.NS;
    auto walk = [&](auto & g, unsigned total)
    {
        for (unsigned k = 0; k < total; ++k)
        {
            g.rand();
            if (g.index < 3 || g.index > n - 3 || g.index % (thorough() ? 64 : 512) == 0) j.check(st, fmt("generators at %u and %u", st.igen.index, st.fgen.index), g.index < 2 || g.index == n - 1);
        }
    };
    walk(st.igen, 2 * n + 5); walk(st.fgen, n + 5);
}

// saved and restored all along
template<class E> void long_life(Cfg const & c, int n)
{
    using State = typename Tr<E>::State;
    LongLife<E> l(c, n);
    State r(make<E>(c).read_params());          // receives one state after the other
    l.with("saving and restoring", [&](E & e, int)
    {
        T::from_json_string(r, T::to_json_string(*e.clone_state()));
        e = E(r);
    });
    l.with("copying from a snapshot", [&](E & e, int i)
    {
        auto p = e.clone_state();
        if (i % 3) e = E(*p); else { E f(*p); e = std::move(f); }
    });
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string const n = Tr<E>::name;
        for (auto & [k, c] : life_cfgs(Tr<E>::cls))
        {
            Cfg cc = c;
            int const depth = tiered(2, 4);
            add(fmt("%s/long life/%s", n.c_str(), k.c_str()), [=](){ long_life<E>(cc, tiered(600, 3000)); });
            add(fmt("%s/life/%s/depth%d", n.c_str(), k.c_str(), depth), [=](){ lives<E>(cc, depth); });
        }
        for (auto [cl, L, F] : std::vector<std::array<int, 3>>{{4, 2, 1}, {4, 2, 700}, {4, 2, 2050}, {4, 12, 65}, {4, 40, 3}, {4, 130, 2}, {4, 300, 1}, {8, 3, 129}, {20, 11, 20}, {32, 2, 33}, {64, 2, 64}, {100, 2, 5}, {132, 3, 2}, {260, 2, 7}, {520, 2, 2}, {1032, 2, 1}, {4, 2, 16385}, {4, 2, 66000}, {4, 17000, 1}, {34000, 2, 1}})
            add(fmt("%s/shape/%d-%d-%d", n.c_str(), cl, L, F), [=, cl = cl, L = L, F = F](){ shape<E>(cl, L, F); });
        add(n + "/params", [](){ params<E>(); });
        for (int F : tiered<ivec>({1, 64, 65, 513}, {1, 2, 3, 31, 33, 63, 64, 65, 127, 128, 129, 513})) add(fmt("%s/contents/F%d", n.c_str(), F), [=](){ contents<E>(F); });
        add(n + "/positions", [](){ positions<E>(); });
    });
}
