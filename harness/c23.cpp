// C23: memory and arithmetic safety.  Built, library and harness, with the address and undefined
// behaviour sanitizers (with float conversions and float division by zero) and libstdc++ assertions;
// every call of a grid of shapes, of extreme parameters and of all short sequences of calls, accepted
// and refused, must run without a report.  All sample buffers are exactly as long as the data.
#include "life.hpp"
#include "tsetlini_state_json.hpp"
using namespace vf;
namespace {

template<class E> void ask(E & e, std::vector<ivec> const & X, ivec const & y)
{
    auto sx = mk<typename Tr<E>::Sample>(X);
    auto a = e.predict(sx); auto b = e.predict(sx[0]);
    if constexpr (Tr<E>::cls) { auto c = e.decision_function(sx); auto d = e.decision_function(sx.back()); auto f = e.evaluate(sx, y); transitions(3); }
    transitions(2);
}
static std::vector<ivec> rows(int F, int n)
{
    std::vector<ivec> X;
    for (int i = 0; i < n; ++i) { ivec x(F); for (int f = 0; f < F; ++f) x[f] = (i == 0 ? 1 : i == 1 ? 0 : (f * 7 + i * 3) >> 1) & 1; X.push_back(x); }
    return X;
}
template<class E> ivec targets(int n, int L, int thr)
{
    ivec y; for (int i = 0; i < n; ++i) y.push_back(Tr<E>::cls ? (n - i - 1 + L) % L : i == 0 ? thr : i == 1 ? 0 : (int)((long long)thr * i / n));
    if (Tr<E>::cls) y[0] = L - 1;
    return y;
}

template<class E> T::params_t make_params(Cfg const & c, E *) { return make<E>(c).read_params(); }
// a whole life in one shape
template<class E> void life_of(Cfg const & c, int F, int L, int n, unsigned epochs, bool json = false)
{
    note("%s F=%d L=%d n=%d clauses=%d N=%d s=%g T=%d w=%d/%d boost=%d jobs=%d %s tile=%d %s C1=%g bm=%d", Tr<E>::name, F, L, n, c.clauses, c.N, (double)c.s, c.thr, c.weighted, c.maxw, c.boost, c.jobs, c.ctype.c_str(), c.tile, c.loss.c_str(), (double)c.C1, c.bm);
    E e = make<E>(c);
    auto X = rows(F, n); auto y = targets<E>(n, L, c.thr);
    auto sx = mk<typename Tr<E>::Sample>(X);
    auto r = do_fit(e, sx, y, L, epochs);
    CHECK(r.first == T::S_OK, "fit refused: %s", r.second.c_str());
    ask(e, X, y);
    ok(do_pfit(e, sx, y, L, epochs), "partial_fit");
    ask(e, X, y);
    auto p = e.clone_state();
    E f(*p); E g(std::move(e));
    ok(do_pfit(f, {sx[0]}, {y[0]}, L, epochs), "partial_fit"); ask(f, X, y);
    do_pfit(g, sx, y, L, 1); ask(g, X, y);
    auto q = g.clone_state(); CHECK(*q == *q, "not equal to itself");
    g.read_params();
    if (json)
    {
        auto js = T::to_json_string(*q);
        typename Tr<E>::State st(make_params(c, (E *)nullptr)); T::from_json_string(st, js);
        E h(st); ask(h, X, y); do_pfit(h, sx, y, L, 1);
    }
    traces(); 
    static std::set<std::string> seen; if (seen.insert(fmt("%d %d %d %d %d %d %d %d %d %d %g %g %d %d", F, L, n, c.clauses, c.N, c.thr, c.tile, c.jobs, c.weighted, c.maxw, (double)c.s, (double)c.C1, c.bm, c.boost) + c.ctype + c.loss + Tr<E>::name).second) states();
}

template<class E> void shapes(int F)
{
    bool const cls = Tr<E>::cls;
    for (int clauses : {4, 12})
        for (int tile : {16, 32, 64, 128})
            for (std::string ct : {"int8", "int32", "int16"})
                for (int jobs : {1, 5})
                    for (int L : cls ? std::vector<int>{2, 5} : std::vector<int>{2})
                        for (bool w : {false, true})
                        {
                            if (!thorough() && ct == "int16" && (jobs == 1 || w)) continue;
                            Cfg c; c.clauses = clauses; c.tile = tile; c.ctype = ct; c.jobs = jobs; c.weighted = w; c.boost = w; c.thr = 4; c.s = tile == 16 ? 1.f : tile == 32 ? 1.01f : tile == 64 ? 3.9f : 1e6f; c.N = 50;
                            life_of<E>(c, F, L, 3, 1, clauses == 4 && tile == 16 && jobs == 1);
                        }
    for (int n : {1, 2, 7}) { Cfg c; life_of<E>(c, F, cls ? 3 : 2, n, 2, true); }
}
template<class E> void extremes(int N)
{
    int const big = std::numeric_limits<int>::max();
    for (int thr : {1, 15, 65536, 16777217, big})
        for (float s : {1.f, 1.0000001f, 2.f, 1e10f, 3e38f})
            for (int maxw : {1, 2, big})
                for (std::string loss : Tr<E>::cls ? std::vector<std::string>{"MSE"} : std::vector<std::string>{"MAE", "berHu", "L1+2", "MSE"})
                    for (float C1 : loss == "berHu" || loss == "L1+2" ? std::vector<float>{0.f, .5f, 1.f, 1e30f, -1e30f, 3e38f} : std::vector<float>{0.f})
                        for (bool bm : Tr<E>::cls ? std::vector<bool>{false} : std::vector<bool>{false, true})
                        {
                            Cfg c; c.N = N; c.thr = thr; c.s = s; c.maxw = maxw; c.weighted = maxw != 2 || N % 2; c.loss = loss; c.C1 = C1; c.bm = bm; c.boost = maxw == 1; c.clauses = 4;
                            if (!thorough() && (C1 > 1 || C1 < 0) && s > 2) continue;
                            life_of<E>(c, 3, 2, 4, 1);
                        }
}
// large machines, batches and lives
template<class E> void magnitudes(int k)
{
    bool const cls = Tr<E>::cls;
    Cfg c; c.thr = 40; c.N = 100; c.jobs = 3;
    if (k == 0) for (int clauses : {256, 260, 1028, 2052}) { Cfg d = c; d.clauses = clauses; d.weighted = true; d.maxw = 300; life_of<E>(d, 5, 2, 3, 1); }
    if (k == 1 && cls) for (int L : {127, 128, 129, 255, 256, 257, 300}) { Cfg d = c; d.clauses = 4; life_of<E>(d, 3, L, 3, 1); }
    if (k == 2) for (int n : {255, 256, 257, 1025, 4097, 65535, 65537}) { Cfg d = c; d.clauses = 4; life_of<E>(d, 2, cls ? 3 : 2, n, 1); }
    if (k == 3) for (int F : {1023, 1024, 1025, 2047, 2049, 4095, 4097, 8193, 65537}) { Cfg d = c; d.clauses = 4; d.tile = F % 2 ? 128 : 16; life_of<E>(d, F, 2, 2, 1); }
    if (k == 4) for (int jobs : {2, 7, 16, 33, 100, 300}) { Cfg d = c; d.clauses = 12; d.jobs = jobs; life_of<E>(d, 9, cls ? 5 : 2, 3, 1); }
    if (k == 5) for (unsigned epochs : {255u, 256u, 1000u, 5000u}) { Cfg d = c; d.clauses = 4; d.weighted = true; d.maxw = 2; life_of<E>(d, 2, 2, 2, epochs); }
}
// states at the limits of automata and weights
template<class E> void limits(std::string ct, int N)
{
    int const big = std::numeric_limits<int>::max();
    for (int thr : {1, 100, big})
        for (int F : {1, 65})
        {
            Cfg c; c.N = N; c.ctype = ct; c.thr = thr; c.weighted = true; c.maxw = big; c.clauses = 12; c.s = 1.5f;
            auto base = fitted_state<E>(c, F, 3);
            auto s0 = snap(base);
            for (int shape = 0; shape < 9; ++shape)
            {
                auto s = s0;
                for (int r = 0; r < s.rows; ++r) for (auto & v : s.ta[r]) v = shape % 3 == 0 ? -N : shape % 3 == 1 ? N - 1 : ((&v - s.ta[r].data()) + r) % 3 ? -N : N - 1;
                if (shape % 3 == 1) for (int r = 1; r < s.rows; r += 2) for (auto & v : s.ta[r]) v = -N;       // true on all ones
                for (auto & w : s.w) w = shape / 3 == 0 ? 0 : shape / 3 == 1 ? (uint32_t)big - 1 : (&w - s.w.data()) % 2 ? (uint32_t)big - 1 : 0u;
                auto st = base; put(st, s);
                E e(st);
                auto X = rows(F, 4);
                note("%s %s N=%d T=%d F=%d shape %d", Tr<E>::name, ct.c_str(), N, thr, F, shape);
                ask(e, X, ivec{0, 1, 2, 0});
                for (int k = 0; k < 6; ++k)
                {
                    ok(do_pfit(e, mk<typename Tr<E>::Sample>(X), Tr<E>::cls ? ivec{0, 1, 2, k % 3} : ivec{0, thr, thr / 2, k % 2 ? thr : 0}, 3, 2), "partial_fit");
                    ask(e, X, ivec{0, 1, 2, 0});
                }
                traces(); states();
            }
        }
}
template<class E> void lives(Cfg const & c, int depth)
{
    Life<E> life(c);
    auto A = life.A(), B = life.B(), C = life.C(), D = life.D();
    life.fit(A, 2, 1); life.fit(B, 3, 0); life.fit(C, 2, 1); life.pfit(A, 2, 2); life.pfit(B, 5, 1); life.pfit(C, 2, 0); life.pfit(D, 2, 1);
    life.predict(A); life.predict(C); life.query(B); life.query(C);
    life.refused();
    life.explore(depth, [&](auto const & st, std::string const &)
    {
        auto js = T::to_json_string(st);
        typename Tr<E>::State r(make_params(c, (E *)nullptr));
        T::from_json_string(r, js);
        CHECK(r == st, "restored state differs");
        traces();
    });
}
// creation arguments
template<class E> void creation()
{
    auto all = [](auto f)
    {
        int const big = std::numeric_limits<int>::max(), small = std::numeric_limits<int>::min();
        for (int v : {small, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 127, 128, 129, 4096, big - 3, big})
            for (int k = 0; k < 8; ++k) { f(v, k); transitions(); traces(); states(); }
    };
    all([](int v, int k)
    {
        using namespace T;
        note("argument %d = %d", k, v);
        auto go = [&](auto a)
        {
            if constexpr (Tr<E>::cls) { if constexpr (Tr<E>::bit) (void)make_classifier_bitwise(a); else (void)make_classifier_classic(a); }
            else { if constexpr (Tr<E>::bit) (void)make_regressor_bitwise(a); else (void)make_regressor_classic(a); }
        };
        if (k == 0) { if constexpr (Tr<E>::cls) go(number_of_physical_classifier_clauses_per_label_t{v}); else go(number_of_physical_regressor_clauses_t{v}); }
        if (k == 1) go(number_of_states_t{v});
        if (k == 2) go(specificity_t{(float)v});
        if (k == 3) go(threshold_t{v});
        if (k == 4) go(max_weight_t{v});
        if (k == 5) go(clause_output_tile_size_t{v});
        if (k == 6) go(number_of_jobs_t{v});
        if (k == 7) go(random_seed_t{(unsigned)v});
    });
}

}
void VF_SETUP();
void VF_SETUP()
{
    using E = VF_EST;
    std::string n = Tr<E>::name;
    for (int F : {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 191, 193, 511, 512, 513})
        if (thorough() || F < 200 || F == 513) add(n + fmt("/shapes F=%d", F), [=]{ shapes<E>(F); });
    for (int N : {1, 2, 127, 128, 32767, 32768, std::numeric_limits<int>::max()}) add(n + fmt("/extremes N=%d", N), [=]{ extremes<E>(N); });
    for (auto [ct, N] : std::vector<std::pair<std::string, int>>{{"int8", 1}, {"int8", 127}, {"int16", 127}, {"int16", 32767}, {"int32", 127}, {"int32", std::numeric_limits<int>::max()}, {"auto", 128}, {"auto", 32768}})
        add(n + fmt("/limits %s N=%d", ct.c_str(), N), [=, ct = ct, N = N]{ limits<E>(ct, N); });
    for (int k = 0; k < 6; ++k) add(n + fmt("/magnitudes %d", k), [=]{ magnitudes<E>(k); });
    for (auto & [ln, c] : life_cfgs(Tr<E>::cls)) { Cfg cc = c; add(n + "/lives " + ln, [=]{ lives<E>(cc, tiered(2, 4)); }); }
    add(n + "/creation", []{ creation<E>(); });
}
#ifndef VF_NO_MAIN
void setup_1(); void setup_2(); void setup_3();
void setup() { setup_0(); setup_1(); setup_2(); setup_3(); }
#endif
