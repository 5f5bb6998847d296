// C05: automata stay in [-N, N-1] and move by single steps, effective weights stay in [1, max_weight].
#include "steps.hpp"
using namespace vf;
using namespace ref;

template<class E> void in_range(Snap const & b, Snap const & a, Cfg const & c, int maxstep, char const * what)
{
    for (int r = 0; r < a.rows; ++r)
        for (int i = 0; i < a.cols; ++i)
        {
            long long const v = a.ta[r][i], u = b.ta[r][i];
            CHECK(v >= -(long long)c.N && v <= (long long)c.N - 1, "%s: automaton %d,%d went from %lld to %lld, outside [-%d, %d]", what, r, i, u, v, c.N, c.N - 1);
            CHECK(std::llabs(v - u) <= maxstep, "%s: automaton %d,%d went from %lld to %lld", what, r, i, u, v);
        }
    CHECK(a.w.size() == b.w.size(), "%s: number of weights changed", what);
    for (size_t o = 0; o < a.w.size(); ++o)
    {
        long long const v = 1ll + a.w[o], u = 1ll + b.w[o];
        CHECK(v >= 1 && v <= c.maxw, "%s: weight of clause %zu went from %lld to %lld, outside [1, %d]", what, o, u, v, c.maxw);
        CHECK(std::llabs(v - u) <= maxstep, "%s: weight of clause %zu went from %lld to %lld", what, o, u, v);
    }
}

// extremes: single steps from states at and next to every limit, in every vector position
template<class E> void limits(Cfg cfg, int F)
{
    int const L = Tr<E>::cls ? 2 : 0;
    cfg.clauses = Tr<E>::cls ? 4 : 2; cfg.loss = "MAE";
    long long const N = cfg.N;
    std::vector<int> vals;
    for (long long v : {-N, -N + 1, -2ll, -1ll, 0ll, 1ll, N - 2, N - 1, N > 200 ? 126ll : 0, N > 200 ? 127ll : 0, N > 200 ? -128ll : 0, N > 200 ? -127ll : 0,
            N > 40000 ? 32766ll : 0, N > 40000 ? 32767ll : 0, N > 40000 ? -32768ll : 0, N > 40000 ? -32767ll : 0})
        if (v >= -N && v < N && std::find(vals.begin(), vals.end(), (int)v) == vals.end()) vals.push_back((int)v);
    std::vector<uint32_t> ws = {0};
    if (cfg.weighted) for (long long w : {2ll, (long long)cfg.maxw - 1, (long long)cfg.maxw, 255ll, 256ll, 65535ll, 65536ll}) if (w >= 1 && w <= cfg.maxw) ws.push_back((uint32_t)(w - 1));
    Seen seen;
    for (float s : {1.f, 1.5f, 1e9f})
        for (int thr : {1000, 1})
        {
            if (thr == 1 && !thorough() && N != 127) continue;
            Cfg c = cfg; c.s = s; c.thr = thr;
            Stepper<E> S(c, F, L);
            int const V = (int)vals.size();
            for (int k = 0; k < 2 * V; ++k)
            {
                int const shift = k / 2; bool const agree = k % 2;
                for (int xs = 0; xs < 2; ++xs)
                    for (auto w : ws)
                    {
                        ivec x(F);
                        for (int i = 0; i < F; ++i) x[i] = (i + xs) % 2;
                        Snap b = S.base();
                        for (int r = 0; r < b.rows; ++r)
                            for (int i = 0; i < F; ++i)
                            {
                                int v = vals[(i / 2 + shift + (xs ? r : 0)) % V];
                                // clauses true on x: literals that are false are excluded
                                bool const lit = r % 2 ? !x[i] : x[i];
                                if (agree && !lit && v >= 0) v = vals[0] + (v == 0 ? 0 : (int)std::min<long long>(N - 1, 1));
                                b.ta[r][i] = v;
                            }
                        for (auto & u : b.w) u = w;
                        seen.insert(fmt("%g/%d/", s, thr) + b.key());
                        for (int y : Tr<E>::cls ? ivec{0, 1} : ivec{0, thr})
                            for (unsigned rot : {0u, 0xf0000000u})
                            {
                                if (!thorough() && (rot != 0) != (s > 1e6f)) continue;
                                note("N=%d F=%d s=%g thr=%d k=%d xs=%d w=%u y=%d", c.N, F, s, thr, k, xs, w, y);
                                auto a = S.run(b, x, y, {}, rot, {}, YES);
                                traces();
                                int const hits = Tr<E>::bit ? F + 1 : 1;     // byte coin: every literal at most once
                                in_range<E>(b, a, c, (s < 1e6f && Tr<E>::bit) ? hits : 1, fmt("N=%d %s F=%d s=%g x%d y=%d", c.N, c.ctype.c_str(), F, s, xs, y).c_str());
                            }
                    }
            }
        }
    count("limit configurations");
}

// saturation: drive a machine against its limits for longer than its depth
template<class E> void saturate(Cfg cfg, int F)
{
    int const L = 2;
    cfg.clauses = Tr<E>::cls ? 4 : 2; cfg.loss = "MAE"; cfg.thr = 1000; cfg.s = 1.f;
    for (int mode = 0; mode < 4; ++mode)
    {
        Cfg c = cfg; c.boost = mode & 1;
        Stepper<E> S(c, F, L);
        ivec x(F);
        for (int i = 0; i < F; ++i) x[i] = i % 3 == 0;
        Snap s = S.base();
        // close to the limits, on both sides
        int const near = std::min(c.N - 1, 3);
        for (int r = 0; r < s.rows; ++r) for (int i = 0; i < F; ++i) s.ta[r][i] = ((r + i) % 2) ? c.N - 1 - near : -c.N + near;
        if (mode & 2) for (int r = 0; r < s.rows; ++r) for (int i = 0; i < F; ++i) { bool lit = r % 2 ? !x[i] : x[i]; s.ta[r][i] = lit ? c.N - 1 - near : -c.N + near; }
        Seen seen;
        for (int k = 0; k < 12; ++k)
        {
            if (c.weighted && k == 6) for (auto & w : s.w) w = (uint32_t)(c.maxw - 1 - std::min(1, c.maxw - 1));
            seen.insert(s.key());
            auto a = S.run(s, x, Tr<E>::cls ? k / 4 % 2 : (k / 4 % 2 ? 0 : 1000), {}, 0, {}, YES);
            traces();
            in_range<E>(s, a, c, Tr<E>::bit ? F + 1 : 1, fmt("N=%d F=%d step %d", c.N, F, k).c_str());
            s = a;
        }
    }
}

// breadth-first search over all reachable states of a small machine
template<class E> void reach(Cfg cfg, int F, std::vector<std::vector<unsigned>> const & draws, unsigned maxstates)
{
    int const L = Tr<E>::cls ? 2 : 0;
    Stepper<E> S(cfg, F, L);
    int const maxstep = Tr<E>::cls ? (Tr<E>::bit ? F : 1) : (Tr<E>::bit ? F : 1) * std::max(1, cfg.clauses / 2);
    std::map<std::string, Snap> all; std::vector<Snap> q;
    // initial states: every automaton on either side of the boundary
    Snap s = S.base();
    int const cells = s.rows * F;
    for (unsigned v = 0; v < 1u << std::min(cells, 8); ++v)
    {
        for (int k = 0; k < cells; ++k) s.ta[k / F][k % F] = -(int)(v >> (k % 8) & 1);
        for (auto & w : s.w) w = 0;
        if (all.emplace(s.key(), s).second) q.push_back(s);
    }
    Seen seen;
    int lo = 0, hi = -1; uint32_t wmax = 0;
    for (size_t h = 0; h < q.size() && q.size() < maxstates; ++h)
    {
        Snap b = q[h];
        seen.insert(b.key());
        for (int xv = 0; xv < 1 << F; ++xv)
            for (int y = 0; y <= (Tr<E>::cls ? L - 1 : cfg.thr); ++y)
                for (auto & iv : draws)
                    for (int g = 0; g < (Tr<E>::cls ? 1 << 4 : 1); ++g)
                    {
                        if (Tr<E>::cls && !thorough() && g != 1 && g != 2 && g != 4 && g != 8 && g != 15) continue;
                        std::vector<float> fv; for (int k = 0; k < 4; ++k) fv.push_back(g >> k & 1 ? YES : NO);
                        auto a = S.run(b, bits(xv, F), y, iv, iv.empty() ? 0 : iv.back(), fv, NO);
                        traces();
                        in_range<E>(b, a, cfg, maxstep, "reachable step");
                        for (auto & r : a.ta) for (auto v : r) { lo = std::min(lo, v); hi = std::max(hi, v); }
                        for (auto w : a.w) wmax = std::max(wmax, w);
                        if (all.emplace(a.key(), a).second) q.push_back(a);
                    }
    }
    count("reachable states", all.size());
    if (q.size() < maxstates)
    {
        CHECK(lo == -cfg.N && hi == cfg.N - 1, "the automata only ever reach [%d, %d] of [%d, %d]", lo, hi, -cfg.N, cfg.N - 1);
        CHECK(!cfg.weighted || (int)wmax + 1 == cfg.maxw, "weights only ever reach %u of %d", wmax + 1, cfg.maxw);
        count("closed machines");
    }
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string n = Tr<E>::name;
        std::vector<std::pair<int, std::vector<std::string>>> Ns = {
            {1, {"auto", "int8", "int16", "int32"}}, {2, {"auto", "int8", "int16", "int32"}}, {63, {"int8"}}, {126, {"auto"}}, {127, {"auto", "int8", "int16", "int32"}},
            {128, {"auto", "int8", "int16", "int32"}}, {129, {"auto", "int8"}}, {255, {"auto"}}, {256, {"auto"}}, {32766, {"auto"}}, {32767, {"auto", "int8", "int16", "int32"}}, {32768, {"auto", "int8", "int16", "int32"}}, {32769, {"int16"}},
            {65536, {"auto", "int16"}}, {1000000000, {"auto"}}, {2147483647, {"auto", "int8", "int32"}}};
        for (auto & [N, cts] : Ns) for (auto & ct : cts)
            for (int boost = 0; boost < 2; ++boost)
                for (int maxw : {0, 1, 2, 3, 2147483647})
                {
                    if (!thorough() && ct != "auto" && boost && N != 127) continue;
                    if (maxw && !thorough() && (boost ? maxw == 1 || maxw == 3 : maxw == 2)) continue;
                    Cfg c; c.N = N; c.ctype = ct; c.boost = boost; c.weighted = maxw > 0; c.maxw = maxw ? maxw : 2147483647;
                    add(fmt("%s limits N=%d %s boost=%d maxw=%d", n.c_str(), N, ct.c_str(), boost, maxw), [c, N = N, ct = ct]{
                        std::vector<int> Fs = N == 127 || N == 128 || N == 1 ? std::vector<int>{1, 3, 17, 70} : std::vector<int>{2, 33};
                        if (thorough()) Fs = {1, 2, 3, 7, 15, 16, 17, 31, 33, 63, 64, 65, 130};
                        for (int F : Fs) limits<E>(c, F);
                    });
                    if (maxw != 1) add(fmt("%s saturate N=%d %s boost=%d maxw=%d", n.c_str(), N, ct.c_str(), boost, maxw), [c]{ for (int F : {1, 5, 64, 67}) saturate<E>(c, F); });
                }
        std::vector<std::vector<unsigned>> dr = {{}, {1}, {0xfffff000u}, {0xfffff001u}, {0, 0, 1, 1}, {0, 0xffffffffu, 0, 0xffffffffu}, {0xffffffffu, 0, 0xffffffffu, 0}};
        for (int N : {1, 2}) for (int maxw : {0, 2}) for (int boost = 0; boost < 2; ++boost)
        {
            Cfg c; c.N = N; c.weighted = maxw > 0; c.maxw = maxw ? maxw : 2147483647; c.s = 2.f; c.boost = boost; c.thr = 2; c.clauses = Tr<E>::cls ? 4 : 4; c.loss = "MAE";
            if (Tr<E>::cls && N == 2 && !thorough()) continue;
            add(fmt("%s reach N=%d maxw=%d boost=%d", n.c_str(), N, maxw, boost), [=]{ reach<E>(c, 1, dr, tiered(20000u, 2000000u)); });
        }
        for (int N : {3, 5})
        {
            Cfg c; c.N = N; c.s = 2.f; c.thr = 5; c.clauses = 2; c.loss = "MAE"; c.weighted = true; c.maxw = 4;
            if (!Tr<E>::cls) { add(fmt("%s reach C=1 N=%d", n.c_str(), N), [=]{ reach<E>(c, 1, dr, 200000); }); if (N == 3) add(fmt("%s reach C=1 F=2 N=%d", n.c_str(), N), [=]{ reach<E>(c, 2, dr, tiered(3000u, 200000u)); }); }
        }
    });
}
