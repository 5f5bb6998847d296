// C27: byte and bit estimators in step.  From the same automata, weights and draws both must give the
// same scores, and do the same learning steps wherever the choice of literals plays no part: one
// feature (all joint states), or feedback that touches all literals alike (all clause shapes, any
// number of features).
#include "steps.hpp"
#include "life.hpp"
#include <array>
using namespace vf;
using namespace ref;

template<bool cls> struct Pair;
template<> struct Pair<true>  { using A = T::ClassifierClassic; using B = T::ClassifierBitwise; };
template<> struct Pair<false> { using A = T::RegressorClassic;  using B = T::RegressorBitwise; };

template<bool cls> void agree(Snap const & s, typename Tr<typename Pair<cls>::A>::State & sa, typename Tr<typename Pair<cls>::B>::State & sb, std::vector<ivec> const & X)
{
    using A = typename Pair<cls>::A; using B = typename Pair<cls>::B;
    put(sa, s); put(sb, s);
    A a(sa); B b(sb);
    auto xa = mk<typename Tr<A>::Sample>(X); auto xb = mk<typename Tr<B>::Sample>(X);
    auto pa = to_ivec(take(a.predict(xa), "predict")), pb = to_ivec(take(b.predict(xb), "predict"));
    CHECK(pa == pb, "%s: predictions %s (byte) and %s (bit)", s.show().c_str(), show(pa).c_str(), show(pb).c_str());
    for (size_t i = 0; i < X.size(); ++i)
    {
        int const qa = take(a.predict(xa[i]), "predict"), qb = take(b.predict(xb[i]), "predict");
        CHECK(qa == qb && qa == pa[i], "%s x=%s: %d (byte) and %d (bit)", s.show().c_str(), show(X[i]).c_str(), qa, qb);
        if constexpr (cls)
        {
            auto da = to_ivec(take(a.decision_function(xa[i]), "decision")), db = to_ivec(take(b.decision_function(xb[i]), "decision"));
            CHECK(da == db, "%s x=%s: scores %s (byte) and %s (bit)", s.show().c_str(), show(X[i]).c_str(), show(da).c_str(), show(db).c_str());
        }
    }
    transitions(3 * X.size()); traces(X.size());
}

// all joint states with one feature: predictions and steps
template<bool cls> void joint(Cfg cfg, int L, int part, int parts)
{
    using A = typename Pair<cls>::A; using B = typename Pair<cls>::B;
    Stepper<A> SA(cfg, 1, L); Stepper<B> SB(cfg, 1, L);
    int const C = SA.base().rows / 2, V = 2 * cfg.N, per = cls ? cfg.clauses / 2 : 0;
    long long total = 1; for (int i = 0; i < 2 * C; ++i) total *= V;
    auto pa = SA.st; auto pb = SB.st;
    Seen seen;
    for (long long v = part; v < total; v += parts)
    {
        Snap s = SA.base();
        long long q = v;
        for (int r = 0; r < 2 * C; ++r) { s.ta[r][0] = (int)(q % V) - cfg.N; q /= V; }
        for (size_t o = 0; o < s.w.size(); ++o) s.w[o] = (uint32_t)((v / (o + 1) + o) % 3);
        seen.insert(s.key());
        agree<cls>(s, pa, pb, {{0}, {1}});
        for (int x = 0; x < 2; ++x)
            for (int y = 0; y < (cls ? L : cfg.thr + 1); ++y)
                for (int g = 0; g < (cls ? 1 << 2 * per : 4); ++g)
                {
                    std::vector<float> fv; std::vector<unsigned> iv;
                    // a regressor draws clause numbers between the coin's draws, which differ: only constant draws are comparable
                    if (cls) for (int k = 0; k < 2 * per; ++k) fv.push_back(g >> k & 1 ? YES : NO);
                    else iv.assign(64, g == 0 ? 0u : g == 1 ? 1u : g == 2 ? 0xffffffffu : 0x80000001u);
                    auto a = SA.run(s, {x}, y, iv, 0, fv, NO), b = SB.run(s, {x}, y, iv, 0, fv, NO);
                    traces();
                    CHECK(a == b, "x=%d y=%d draws %x from %s: %s (byte) and %s (bit)", x, y, g, s.show().c_str(), a.show().c_str(), b.show().c_str());
                }
    }
}

// clause shapes over many features: nothing, one literal at each position, two literals, all true literals
static std::vector<Cl> shapes(int F, int N, int salt)
{
    std::vector<Cl> r;
    auto empty = [&]{ Cl c{ivec(F), ivec(F), 1}; for (int f = 0; f < F; ++f) { c.pos[f] = -1 - (f + salt) % N; c.neg[f] = -1 - (f * 3 + salt) % N; } return c; };
    r.push_back(empty());
    for (int f = 0; f < F; ++f) { auto c = empty(); c.pos[f] = f % N; r.push_back(c); c = empty(); c.neg[f] = (f + 1) % N; r.push_back(c); }
    for (int f = 0; f < F; f += std::max(1, F / 8)) { auto c = empty(); c.pos[f] = 0; c.neg[F - 1] = N - 1; r.push_back(c); c.neg[(f + 1) % F] = 0; r.push_back(c); c.pos[F - 1] = 1 % N; r.push_back(c); }
    { auto c = empty(); for (int f = 0; f < F; ++f) { if (f % 2) c.pos[f] = f % N; else c.neg[f] = f % N; } r.push_back(c); }
    { auto c = empty(); for (int f = 0; f < F; ++f) c.pos[f] = c.neg[f] = 0; r.push_back(c); }
    return r;
}
template<bool cls> void wide(Cfg cfg, int F)
{
    using A = typename Pair<cls>::A; using B = typename Pair<cls>::B;
    int const L = 2;
    cfg.s = 1.f; cfg.boost = true;
    Stepper<A> SA(cfg, F, L); Stepper<B> SB(cfg, F, L);
    auto pa = SA.st; auto pb = SB.st;
    int const C = SA.base().rows / 2, per = cls ? cfg.clauses / 2 : C;
    auto sh_ = shapes(F, cfg.N, F % 5);
    std::vector<ivec> X{ivec(F, 0), ivec(F, 1), ivec(F), ivec(F)};
    for (int f = 0; f < F; ++f) { X[2][f] = f % 2; X[3][f] = f != F - 1; }
    Seen seen;
    for (size_t k = 0; k < sh_.size(); ++k)
    {
        Snap s = SA.base();
        for (int o = 0; o < C; ++o) { auto c = sh_[(k + (o / 2) * 7) % sh_.size()]; if (cfg.weighted) c.w = 1 + (o + k) % 3; set(s, o, c); }
        seen.insert(s.key());
        note("%s F=%d shape %zu", cls ? "classifier" : "regressor", F, k);
        auto Y = X; { ivec x(F, 1); x[k % F] = 0; Y.push_back(x); for (auto & v : x) v = !v; Y.push_back(x); }
        agree<cls>(s, pa, pb, Y);
        for (auto & x : X)
            for (int y = 0; y < (cls ? L : 2); ++y)
            {
                std::vector<bool> t; for (int o = 0; o < C; ++o) t.push_back(clause_true(get(s, o), x));
                if (cls)
                {
                    // one grant at a time; only where the coin plays no part: Type II, and Type I on a true clause (with s = 1 all literals)
                    for (int g = 0; g < 2 * per; ++g)
                    {
                        std::vector<float> fv(2 * per, NO); fv[g] = YES;
                        auto a = SA.run(s, x, y, {}, 0, fv, NO), b = SB.run(s, x, y, {}, 0, fv, NO);
                        traces();
                        int changed = -1;
                        for (int o = 0; o < C; ++o) if (!(get(a, o) == get(s, o)) || !(get(b, o) == get(s, o))) { CHECK(changed < 0, "several clauses changed"); changed = o; }
                        if (changed < 0) { CHECK(a == b, "differ"); continue; }
                        bool const typeI = (changed / per == y) == (changed % per % 2 == 0);
                        if (typeI && !t[changed]) continue;
                        CHECK(a == b, "x=%s y=%d grant %d, clause %d: %s (byte) and %s (bit)", show(x).c_str(), y, g, changed, get(a, changed).show().c_str(), get(b, changed).show().c_str());
                        count("coin-free steps");
                    }
                }
                else
                {
                    // too high: Type II only; too low: only if every clause is true
                    int const v = response(s, cfg.thr, x, 1);
                    bool const all = std::all_of(t.begin(), t.end(), [](bool q){ return q; });
                    for (int target : {0, v ? v - 1 : 0, cfg.thr})
                    {
                        if (target > v && !all) continue;
                        for (unsigned c : {0u, 1u, 2u, 3u, 0xffffffffu})
                        {
                            std::vector<unsigned> iv(900, c);
                            if (target > v && C > 1) { iv.assign(1, c); if (C > 1) continue; }
                            auto a = SA.run(s, x, target, iv, c, {}, NO), b = SB.run(s, x, target, iv, c, {}, NO);
                            traces();
                            CHECK(a == b, "x=%s response %d draws %u: %s (byte) and %s (bit)", show(x).c_str(), target, c, a.show().c_str(), b.show().c_str());
                            count("coin-free steps");
                        }
                    }
                }
            }
    }
}

// clauses that hang on one literal each, over more features than a tile of the evaluation
template<bool cls> void lone(Cfg cfg, int F)
{
    using A = typename Pair<cls>::A; using B = typename Pair<cls>::B;
    cfg.s = 1e9f; cfg.N = 3; cfg.thr = 50; cfg.loss = "MAE";
    Stepper<A> SA(cfg, F, 2); Stepper<B> SB(cfg, F, 2);
    auto pa = SA.st; auto pb = SB.st;
    Seen seen;
    lone_literals(SA.base(), F, edges(F, 64 * cfg.tile), 1, [&](Snap const & s, ivec const & x, int p)
    {
        seen.insert(s.key());
        agree<cls>(s, pa, pb, {x});
        for (int y : cls ? ivec{0, 1} : cfg.clauses == 2 ? ivec{0, 50} : ivec{0})     // with more clauses, draws of the coin decide which ones are picked
        {
            // the coin picks nothing with these draws
            auto a = SA.run(s, x, y, {}, 0xf0000000u, {}, YES), b = SB.run(s, x, y, {}, 0xf0000000u, {}, YES);
            traces(); count("coin-free steps");
            CHECK(a == b, "F=%d tile=%d literal %d (x there is %d) y=%d: byte and bit estimators differ after a step", F, cfg.tile, p, x[p], y);
        }
    });
}

// many clauses, automata and weights of all magnitudes
template<bool cls> void large(Cfg cfg, int per, int L, int F)
{
    using A = typename Pair<cls>::A; using B = typename Pair<cls>::B;
    cfg.s = 1e9f; cfg.loss = "MAE"; cfg.clauses = 2 * per;
    Stepper<A> SA(cfg, F, L); Stepper<B> SB(cfg, F, L);
    auto pa = SA.st; auto pb = SB.st;
    Seen seen;
    for (int shift = 0; shift < 12; shift += !thorough() && (long)per * (cls ? L : 1) * std::max(F, 1) > 10000 ? 3 : 1)
    {
        std::vector<ivec> X(4, ivec(F, 0));
        for (int i = 0; i < F; ++i) { X[0][i] = shift % 4 == 0 ? i % 2 : shift % 4 == 1 ? 1 : shift % 4 == 2 ? 0 : (i / 2) % 2; X[1][i] = !X[0][i]; X[2][i] = 1; X[3][i] = (i + shift) / 3 % 2; }
        Snap s = SA.base();
        vast(s, X[0], cfg, shift);
        seen.insert(s.key());
        agree<cls>(s, pa, pb, X);
        if (cls && L != 2) continue;        // draws of the coin decide which label is contrasted
        for (auto & x : X)
            for (int y : cls ? ivec{0, 1} : per == 1 ? ivec{0, cfg.thr} : ivec{0})
            {
                auto a = SA.run(s, x, y, {}, 0xf0000000u, {}, YES), b = SB.run(s, x, y, {}, 0xf0000000u, {}, YES);
                traces(); count("coin-free steps");
                for (int o = 0; o < s.rows / 2; ++o) CHECK(get(a, o) == get(b, o), "T=%d y=%d clause %d of %d: from %s to %s (byte) and %s (bit)", cfg.thr, y, o, s.rows / 2, get(s, o).show().c_str(), get(a, o).show().c_str(), get(b, o).show().c_str());
            }
    }
}

// bit rows which own more storage than they need (all zero) are the same samples
static T::bit_vector_uint64 roomy(ivec const & x, int spare)
{
    auto t = mk<T::bit_vector_uint64>(x);
    auto v = t.m_vector; v.resize(v.size() + spare, 0);
    T::bit_vector_uint64 r((size_t)x.size(), std::move(v));
    CHECK(r.size() == x.size(), "harness: %zu bits", (size_t)r.size());
    return r;
}
template<bool cls> void spare(Cfg cfg, int F)
{
    using B = typename Pair<cls>::B;
    auto const d = make_set("spare", F, 3, 9, cls, cfg.thr);
    auto const tight = mk<T::bit_vector_uint64>(d.X);
    B a = make<B>(cfg);
    ok(do_fit(a, tight, d.y, 3, 2), "fit");
    auto const fitted = full(*a.clone_state());
    auto const pa = to_ivec(take(a.predict(tight), "predict"));
    ok(do_pfit(a, tight, d.y, 3, 2), "partial_fit");
    auto const later = full(*a.clone_state());
    for (int k = 0; k < 8; ++k)
    {
        std::vector<T::bit_vector_uint64> X;
        for (size_t i = 0; i < d.X.size(); ++i) X.push_back(roomy(d.X[i], k < 5 ? k : k == 5 ? (int)i % 4 : k == 6 ? (i == 0 ? 3 : 0) : 64));
        auto const at = fmt("%s F=%d spare storage %d", cls ? "classifier" : "regressor", F, k); note("%s", at.c_str());
        B b = make<B>(cfg);
        ok(do_fit(b, X, d.y, 3, 2), "fit with spare storage");
        CHECK(full(*b.clone_state()) == fitted, "%s: fitting differs", at.c_str());
        auto const pb = to_ivec(take(b.predict(X), "predict with spare storage"));
        CHECK(pa == pb, "%s: predictions %s and %s", at.c_str(), show(pa).c_str(), show(pb).c_str());
        for (size_t i = 0; i < X.size(); ++i)
        {
            CHECK(take(b.predict(X[i]), "predict with spare storage") == pa[i], "%s: prediction of row %zu", at.c_str(), i);
            if constexpr (cls) CHECK(to_ivec(take(b.decision_function(X[i]), "decision")) == to_ivec(take(b.decision_function(tight[i]), "decision")), "%s: scores of row %zu", at.c_str(), i);
        }
        ok(do_pfit(b, X, d.y, 3, 2), "partial_fit with spare storage");
        CHECK(full(*b.clone_state()) == later, "%s: training on differs", at.c_str());
        traces(X.size() + 2); transitions(2 * X.size());
    }
    states();
}

void setup()
{
    for (int F : {1, 2, 63, 64, 65, 127, 128, 129, 511, 512, 513, 1025, 8193}) for (bool w : {false, true}) for (int jobs : {1, 3})
    {
        Cfg c; c.weighted = w; c.jobs = jobs; c.clauses = 8; c.thr = 6; c.s = 3.f;
        add(fmt("classifier/spare storage F=%d weighted=%d jobs=%d", F, w, jobs), [=]{ spare<true>(c, F); });
        add(fmt("regressor/spare storage F=%d weighted=%d jobs=%d", F, w, jobs), [=]{ spare<false>(c, F); });
    }
    for (int N : {100, 128, 129, 40000, 2147483647})
    {
        auto all = [=](auto f, int per)
        {
            for (int m : {0, 300, 70000, 2147483647}) for (int thr : {1, 50, 127, 128, 40000, 1000000})
            {
                if (!thorough() && per > 100 && thr != 50 && thr != 1000000) continue;
                if (!thorough() && per > 10000 && m != (thr == 50 ? 2147483647 : 70000)) continue;
                Cfg d; d.N = N; d.boost = N % 2; d.weighted = m; d.maxw = m ? m : 2147483647; d.thr = thr; f(d);
            }
        };
        for (auto [per, L, F] : std::vector<std::array<int, 3>>{{2, 2, 70}, {2, 3, 5}, {2, 9, 5}, {2, 17, 5}, {4, 33, 3}, {2, 65, 3}, {2, 130, 2}, {2, 260, 2}, {16, 2, 5}, {32, 2, 5}, {34, 2, 5}, {64, 2, 5}, {66, 2, 65}, {128, 2, 5}, {130, 2, 5}, {256, 2, 2}, {258, 2, 2}, {514, 2, 2}, {1026, 2, 2}, {2, 2, 4097}, {2, 2, 16385}, {2, 2, 66000}, {34000, 2, 1}, {2, 34000, 1}})
            add(fmt("classifier/large per=%d L=%d F=%d N=%d", per, L, F, N), [=, per = per, L = L, F = F]{ all([=](Cfg d){ if (per * L * F < 10000 || (d.thr > 1000 && d.weighted != (N == 1))) large<true>(d, per, L, F); }, per * L * F); });
        for (int C : {1, 2, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1025, 17000, 34000, 66000})
            add(fmt("regressor/large C=%d N=%d", C, N), [=]{ all([=](Cfg d){ large<false>(d, C, 0, C > 200 ? 2 : 5); }, C); });
    }
    Cfg c; c.clauses = 4; c.s = 1.f; c.thr = 3;
    for (int b = 0; b < 4; ++b)
    {
        Cfg d = c; d.boost = b & 1; d.weighted = b & 2; d.maxw = 3;
        auto n = fmt("boost=%d weighted=%d", b & 1, b >> 1);
        { Cfg e = d; e.N = 1; add("classifier/joint N=1 " + n, [=]{ joint<true>(e, 2, 0, 1); }); e.thr = 1; e.jobs = 2; add("classifier/joint N=1 T=1 jobs=2 " + n, [=]{ joint<true>(e, 2, 0, 1); }); }
        int const parts = tiered(16, 16);
        for (int p = 0; p < (thorough() ? parts : 2); ++p) { Cfg e = d; e.N = 2; int const q = (p * 5 + b) % parts; add(fmt("classifier/joint N=2 %d/%d ", q, parts) + n, [=]{ joint<true>(e, 2, q, parts); }); }
        { Cfg e = d; e.N = 3; e.clauses = 2; add("regressor/joint one clause N=3 " + n, [=]{ joint<false>(e, 2, 0, 1); }); }
        { Cfg e = d; e.N = 2; e.clauses = 4; add("regressor/joint two clauses N=2 " + n, [=]{ joint<false>(e, 2, 0, 1); }); }
        { Cfg e = d; e.N = 1; e.clauses = 8; add("regressor/joint four clauses N=1 " + n, [=]{ joint<false>(e, 2, 0, 1); }); }
        for (int F : {2, 3, 31, 63, 64, 65, 128, 129, 200})
        {
            if (F > 64 && b != 3 && b != 0) continue;
            Cfg e = d; e.N = 4; add(fmt("classifier/wide F=%d ", F) + n, [=]{ wide<true>(e, F); });
            e.clauses = 2; add(fmt("regressor/wide one clause F=%d ", F) + n, [=]{ wide<false>(e, F); });
            e.clauses = 6; add(fmt("regressor/wide three clauses F=%d ", F) + n, [=]{ wide<false>(e, F); });
        }
    }
    for (auto [F, tile, jobs] : wide_shapes(true))
    {
        Cfg e = c; e.tile = tile; e.jobs = jobs; e.boost = F % 2;
        add(fmt("classifier/lone literals F=%d tile=%d jobs=%d", F, tile, jobs), [=, F = F]{ lone<true>(e, F); });
        add(fmt("regressor/lone literals F=%d tile=%d jobs=%d", F, tile, jobs), [=, F = F]{ auto d = e; d.clauses = 2; lone<false>(d, F); d.clauses = 8; lone<false>(d, F); });
    }
    for (std::string ct : {"int8", "int16", "int32"})
        for (int tile : {16, 32, 64, 128})
            for (int jobs : {1, 3}) { Cfg e = c; e.ctype = ct; e.tile = tile; e.N = 5; e.jobs = jobs; e.clauses = 12; add(fmt("classifier/wide %s tile=%d jobs=%d", ct.c_str(), tile, jobs), [=]{ wide<true>(e, 67); }); }
}
