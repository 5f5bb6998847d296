// C03: the step relation of classifiers. From every state of small machines and under every
// outcome of the random draws, the result of training on one pair is legal (soundness), and every
// legal result of every clause occurs (completeness).  The order in which the library draws
// its random numbers is not assumed.
#include "steps.hpp"
using namespace vf;
using namespace ref;

static void values(int N, int rows, int F, std::function<void(std::vector<ivec> const &)> f)   // all 2 x F automata states in [-N, N)
{
    (void)rows;
    std::vector<ivec> s(2, ivec(F));
    long long total = 1; for (int i = 0; i < 2 * F; ++i) total *= 2 * N;
    for (long long v = 0; v < total; ++v)
    {
        long long q = v;
        for (int i = 0; i < 2 * F; ++i) { s[i / F][i % F] = (int)(q % (2 * N)) - N; q /= 2 * N; }
        f(s);
    }
}

// All clauses in the same state; each clause in turn (that is: each single granted draw) gets feedback.
template<class E> void single(Cfg cfg, int F, int L, unsigned D, std::set<int> ys, long long part, long long parts)
{
    Stepper<E> S(cfg, F, L);
    auto R = rules(cfg, F, Tr<E>::bit);
    auto A = alphabet(F);
    int const per = cfg.clauses / 2, C = per * L;
    Seen seen;
    long long n = 0;
    std::vector<long long> ws = cfg.weighted ? std::vector<long long>{1, 2, cfg.maxw} : std::vector<long long>{1};
    values(cfg.N, 2, F, [&](std::vector<ivec> const & c)
    {
        if (n++ % parts != part) return;
        for (auto w : ws)
        {
            Snap s = S.base();
            for (int o = 0; o < C; ++o) set(s, o, Cl{c[0], c[1], w});
            seen.insert(s.key());
            for (int xv = 0; xv < 1 << F; ++xv)
            {
                auto x = bits(xv, F);
                Memo memo;
                for (int y : ys)
                {
                    // results seen for each (clause, opposite label)
                    std::map<int, std::set<Cl>> got;
                    auto one_ = [&](std::vector<unsigned> const & A, unsigned D, std::vector<float> const & fv, float rest)
                    {
                        std::vector<unsigned> pre;
                        draw_tree(A, D, pre, [&](std::vector<unsigned> const & iv)
                        {
                            auto a = S.run(s, x, y, iv, 0, fv, rest);
                            int opp = -1;
                            auto why = classifier_step(s, a, x, y, L, cfg.thr, R, memo, &opp);
                            CHECK(why.empty(), "x=%s y=%d: %s [%s -> %s]", show(x).c_str(), y, why.c_str(), s.show().c_str(), a.show().c_str());
                            for (int o = 0; o < C; ++o) got[o].insert(get(a, o));
                            traces();
                            return S.idr;
                        });
                    };
                    // a two-letter alphabet reaches both literals and both coin counts; the larger one
                    // adds small and large values of each residue, to a lesser depth
                    auto one = [&](std::vector<float> const & fv, float rest)
                    {
                        one_({0u, 0xffffffffu}, D, fv, rest);
                        if (F > 1) one_(A, tiered(2, 4), fv, rest);
                    };
                    one({}, NO);                                    // nobody
                    for (int k = 0; k < 2 * per; ++k) { std::vector<float> fv(2 * per, NO); fv[k] = YES; one(fv, NO); }
                    // completeness: each clause stays, and takes every result of its feedback
                    for (int l = 0; l < L; ++l)
                        for (int k = 0; k < per; ++k)
                        {
                            int o = l * per + k;
                            Cl b = get(s, o);
                            bool const typeI = (l == y) == (k % 2 == 0);
                            CHECK(got[o].count(b), "x=%s y=%d clause %d %s: always changes, though its feedback is not certain", show(x).c_str(), y, o, b.show().c_str());
                            for (auto & d : feedback(b, x, clause_true(b, x), typeI, R))
                                CHECK(got[o].count(d), "x=%s y=%d clause %d %s: the result %s of Type %s feedback never occurs", show(x).c_str(), y, o, b.show().c_str(), d.show().c_str(), typeI ? "I" : "II");
                            count("clause results", got[o].size());
                        }
                }
            }
        }
    });
}

// Every joint state of a machine with F=1 and `N`, all grants
template<class E> void joint(Cfg cfg, int L, int part, int parts)
{
    Stepper<E> S(cfg, 1, L);
    auto R = rules(cfg, 1, Tr<E>::bit);
    int const per = cfg.clauses / 2, C = per * L, V = 2 * cfg.N;
    long long total = 1; for (int i = 0; i < 2 * C; ++i) total *= V;
    std::map<int, Memo> memo;
    Seen seen;
    for (long long v = part; v < total; v += parts)
    {
        Snap s = S.base();
        long long q = v;
        for (int r = 0; r < 2 * C; ++r) { s.ta[r][0] = (int)(q % V) - cfg.N; q /= V; }
        for (size_t o = 0; o < s.w.size(); ++o) s.w[o] = (uint32_t)((v + o) % 3);
        seen.insert(s.key());
        for (int x = 0; x < 2; ++x)
            for (int y = 0; y < L; ++y)
            {
                std::set<int> opps;
                for (int g = 0; g < 1 << (2 * per); ++g)
                {
                    std::vector<float> fv(2 * per);
                    for (int k = 0; k < 2 * per; ++k) fv[k] = g >> k & 1 ? YES : NO;
                    for (unsigned rot : {0u, 1u, 0xfffff000u, 0xfffff001u})
                    {
                        auto a = S.run(s, {x}, y, {}, rot, fv, NO);
                        int opp = -1;
                        auto why = classifier_step(s, a, {x}, y, L, cfg.thr, R, memo[x], &opp);
                        CHECK(why.empty(), "x=%d y=%d grants=%x: %s [%s -> %s]", x, y, g, why.c_str(), s.show().c_str(), a.show().c_str());
                        traces();
                    }
                }
            }
    }
}

// All results of a step with all clauses granted: the product of the clauses' results
template<class E> void product(Cfg cfg)
{
    Stepper<E> S(cfg, 1, 2);
    auto R = rules(cfg, 1, Tr<E>::bit);
    Seen seen;
    for (int v = 0; v < 256; v += tiered(3, 1))
    {
        Snap s = S.base();
        for (int r = 0; r < 8; ++r) s.ta[r][0] = (v >> r & 1) - 1;
        seen.insert(s.key());
        for (int x = 0; x < 2; ++x)
            for (int y = 0; y < 2; ++y)
            {
                std::set<std::string> got, want{""};
                std::vector<unsigned> pre;
                draw_tree({0u, 0xffffffffu}, 12, pre, [&](std::vector<unsigned> const & iv)
                {
                    auto a = S.run(s, {x}, y, iv, 0, {}, YES);
                    got.insert(a.key());
                    traces();
                    return S.idr;
                });
                std::vector<Snap> ws{s};
                for (int o = 0; o < 4; ++o)
                {
                    bool const typeI = (o / 2 == y) == (o % 2 == 0);
                    auto c = get(s, o);
                    std::vector<Snap> nx;
                    for (auto & d : feedback(c, {x}, clause_true(c, {x}), typeI, R)) for (auto t : ws) { set(t, o, d); nx.push_back(t); }
                    ws = nx;
                }
                want.clear();
                for (auto & t : ws) want.insert(t.key());
                CHECK(got == want, "x=%d y=%d state %s: %zu joint results, the product of the clauses' feedbacks has %zu", x, y, s.show().c_str(), got.size(), want.size());
                count("joint results", want.size());
            }
    }
}

// Wide samples, all grants: outcomes that do not depend on the coin, literal by literal
template<class E> void wide(Cfg cfg, int F, bool coin_always)
{
    cfg.s = coin_always ? 1.f : 1e9f;
    Stepper<E> S(cfg, F, 2);
    int const C = 4, N = cfg.N;
    Rules R{N, cfg.boost, cfg.weighted, cfg.maxw, coin_always ? F : 0, coin_always ? F : 0, Tr<E>::bit};
    ivec all(F, coin_always), none(F, 0);
    Seen seen;
    int vals[6] = {-N, -N + 1 < -1 ? -N + 1 : -1, -1, 0, N > 1 ? 1 : 0, N - 1};
    for (int shift = 0; shift < 6; ++shift)
        for (int xs = 0; xs < 4; ++xs)
            for (int y = 0; y < 2; ++y)
            {
                ivec x(F);
                for (int i = 0; i < F; ++i) x[i] = xs == 0 ? i % 2 : xs == 1 ? (i / 3) % 2 : xs == 2 ? 1 : 0;
                Snap s = S.base();
                for (int o = 0; o < C; ++o)
                    for (int i = 0; i < F; ++i)
                    {
                        // even shifts: true clauses (literals false in x are excluded), odd: anything
                        int p = vals[(i + shift + o) % 6], n = vals[(i * 5 + shift + 2 * o) % 6];
                        if (shift % 2 == 0) { if (!x[i] && p >= 0) p = -1 - p; if (x[i] && n >= 0) n = -1 - n; }
                        s.ta[2 * o][i] = p; s.ta[2 * o + 1][i] = n;
                    }
                seen.insert(s.key());
                // values that the rare coin ignores / a full rotation for the certain one
                auto a = S.run(s, x, y, {}, coin_always ? 0u : 0xf0000000u, {}, YES);
                traces();
                for (int o = 0; o < C; ++o)
                {
                    Cl b = get(s, o), g = get(a, o);
                    bool const typeI = (o / 2 == y) == (o % 2 == 0), out = clause_true(b, x);
                    if (typeI && !out && coin_always && Tr<E>::bit)
                    {
                        // drawn with replacement: every literal may only be weakened
                        for (int i = 0; i < F; ++i) CHECK(g.pos[i] <= b.pos[i] && g.neg[i] <= b.neg[i] && g.pos[i] >= -N && g.neg[i] >= -N, "F=%d clause %d literal %d was not weakened: %d/%d -> %d/%d", F, o, i, b.pos[i], b.neg[i], g.pos[i], g.neg[i]);
                        CHECK(g.w == b.w, "weight changed");
                        continue;
                    }
                    Cl want = b;
                    if (typeI && out) want = typeI1_with(b, x, all, all, R);
                    else if (typeI) for (int i = 0; i < F; ++i) { want.pos[i] = std::max(-N, b.pos[i] - all[i]); want.neg[i] = std::max(-N, b.neg[i] - all[i]); }
                    else if (out) want = typeII1(b, x, R);
                    if (!(g == want))
                    {
                        int i = 0; while (i < F && g.pos[i] == want.pos[i] && g.neg[i] == want.neg[i]) ++i;
                        if (i == F) fail("F=%d clause %d: weight %lld -> %lld, not %lld (Type %s, clause %d)", F, o, b.w, g.w, want.w, typeI ? "I" : "II", (int)out);
                        fail("F=%d x%d y=%d clause %d literal %d (x=%d): %d/%d -> %d/%d, not %d/%d (Type %s, clause %d, coin %d)", F, xs, y, o, i, x[i], b.pos[i], b.neg[i], g.pos[i], g.neg[i], want.pos[i], want.neg[i], typeI ? "I" : "II", (int)out, (int)coin_always);
                    }
                    count("wide literals", 2 * F);
                }
            }
}

// the contrasted label: any other one, and only one
template<class E> void labels(int L)
{
    Cfg cfg; cfg.N = 3; cfg.s = 1e9f; cfg.thr = 50; cfg.clauses = 8;
    Stepper<E> S(cfg, 2, L);
    auto R = rules(cfg, 2, Tr<E>::bit); R.lo = 0; R.hi = 0;
    Seen seen;
    for (int v = 0; v < 4; ++v)
    {
        Snap s = S.base();
        for (auto & r : s.ta) for (auto & t : r) t = -1 - v % 2;
        seen.insert(s.key());
        for (int xv = 0; xv < 4; ++xv)
            for (int y = 0; y < L; ++y)
            {
                std::set<int> opps; Memo memo;
                for (unsigned d = 0; d < 4u * L; ++d)
                {
                    auto a = S.run(s, bits(xv, 2), y, {}, 0xf0000000u + d, {}, YES);
                    int opp = -1;
                    auto why = classifier_step(s, a, bits(xv, 2), y, L, cfg.thr, R, memo, &opp);
                    CHECK(why.empty(), "L=%d x=%d y=%d: %s [%s -> %s]", L, xv, y, why.c_str(), s.show().c_str(), a.show().c_str());
                    opps.insert(opp); traces();
                }
                CHECK((int)opps.size() == L - 1, "L=%d y=%d: only %zu of %d other labels are ever contrasted", L, y, opps.size(), L - 1);
            }
    }
}

// wide machines, clauses that hang on a single literal at every kind of position, all tile sizes
template<class E> void lone(Cfg cfg, int F)
{
    cfg.s = 1e9f; cfg.N = 3;
    Stepper<E> S(cfg, F, 2);
    int const C = 4, per = 2;
    Rules R{cfg.N, cfg.boost, cfg.weighted, cfg.maxw, 0, 0, Tr<E>::bit};
    ivec none(F, 0);
    Seen seen;
    lone_literals(S.base(), F, edges(F, Tr<E>::bit ? 64 * cfg.tile : cfg.tile), F > 4400 && !thorough() ? 1 : 2, [&](Snap const & s, ivec const & x, int p)
    {
        seen.insert(s.key());
        for (int y = 0; y < 2; ++y)
        {
            auto a = S.run(s, x, y, {}, 0xf0000000u, {}, YES);
            traces();
            for (int o = 0; o < C; ++o)
            {
                Cl b = get(s, o), g = get(a, o);
                bool const typeI = (o / per == y) == (o % 2 == 0), out = lone_true(s, o, x, p);
                Cl want = !out ? b : typeI ? typeI1_with(b, x, none, none, R) : typeII1(b, x, R);
                CHECK(g == want, "F=%d tile=%d jobs=%d y=%d: clause %d includes %sliteral %d, x there is %d: wrong result of Type %s feedback", F, cfg.tile, cfg.jobs, y, o, s.ta[2 * o][p] >= 0 ? "" : "negated ", p, x[p], typeI ? "I" : "II");
            }
        }
    });
}

// many clauses and labels, automata and weights of all magnitudes; all granted, the coin never falls
template<class E> void large(Cfg cfg, int per, int L, int F)
{
    cfg.s = 1e9f; cfg.clauses = 2 * per;
    Stepper<E> S(cfg, F, L);
    auto R = rules(cfg, F, Tr<E>::bit); R.lo = R.hi = 0;
    ivec const none(F, 0);
    Seen seen;
    for (int shift = 0; shift < 12; shift += (long long)per * L * F > 10000 ? 5 : 1)
    {
        ivec x(F);
        for (int i = 0; i < F; ++i) x[i] = shift % 4 == 0 ? i % 2 : shift % 4 == 1 ? 1 : shift % 4 == 2 ? 0 : (i / 2) % 2;
        Snap s = S.base();
        vast(s, x, cfg, shift);
        seen.insert(s.key());
        std::set<int> ys{0, 1, L / 2, L - 1};
        if (L > 8) { ys.insert(7); ys.insert(8); } if (L > 16) { ys.insert(15); ys.insert(16); } if (L > 256) { ys.insert(255); ys.insert(256); }
        if (L > 10000) ys = {0, L / 2, L - 1, shift ? 32768 : 65536}; ys.erase(ys.lower_bound(L), ys.end());
        for (int y : ys)
        {
            std::set<int> opps;
            for (unsigned d = 0; d < (L <= 20 ? 2u * L : L < 10000 ? 3u : 1u); ++d)
            {
                auto a = S.run(s, x, y, {}, 0xf0000000u + d, {}, YES);
                traces();
                int opp = -1;
                for (int l = 0; l < L; ++l)
                {
                    if (l == y) continue;
                    bool ch = false;
                    for (int o = l * per; o < (l + 1) * per && !ch; ++o) ch = !(get(s, o) == get(a, o));
                    if (!ch) continue;
                    CHECK(opp < 0, "per=%d L=%d y=%d: clauses of labels %d and %d changed", per, L, y, opp, l);
                    opp = l;
                }
                if (opp >= 0) opps.insert(opp);
                for (int l : {y, opp})
                {
                    if (l < 0) continue;
                    int const v = score(s, l, per, cfg.thr, x, 1);
                    bool const due = l == y ? v < cfg.thr : v > -cfg.thr;
                    for (int k = 0; k < per; ++k)
                    {
                        int const o = l * per + k;
                        Cl const b = get(s, o), g = get(a, o);
                        bool const typeI = (l == y) == (k % 2 == 0), out = clause_true(b, x);
                        Cl want = b;
                        if (due && out) want = typeI ? typeI1_with(b, x, none, none, R) : typeII1(b, x, R);
                        // there are not enough injected draws for thousands of clauses: feedback is certain at the far limit alone
                        if (per > 2000 && v != (l == y ? -cfg.thr : cfg.thr) && g == b) continue;
                        CHECK(g == want, "clause %d of %d of label %d of %d (score %d, T=%d, y=%d): %s -> %s, not %s", k, per, l, L, v, cfg.thr, y, b.show().c_str(), g.show().c_str(), want.show().c_str());
                    }
                    count("clauses of large machines", per);
                }
            }
            // a label whose score is at -T needs no contrast, every other one must be met
            for (int l = 0; l < L && L <= 20; ++l) if (l != y && score(s, l, per, cfg.thr, x, 1) > -cfg.thr)
            {
                bool can = false;
                for (int o = l * per; o < (l + 1) * per; ++o) can |= clause_true(get(s, o), x);
                CHECK(!can || opps.count(l), "label %d of %d is never contrasted with label %d", l, L, y);
            }
        }
    }
}

// Several steps of one estimator, in one call and in several: what it keeps between steps must not show.
// Scores stay far from the threshold, so that the clauses are independent of each other: for some order
// of the samples (and choice of contrasted labels) the clauses got no more feedbacks in all than draws
// granted one, and each clause is where its feedbacks, each on the clause as it was then, lead it.
template<class E> void histories(Cfg cfg, int F, int L, std::vector<ivec> const & X, ivec const & y, unsigned epochs, int shape, unsigned D)
{
    Stepper<E> S(cfg, F, L);
    auto R = rules(cfg, F, Tr<E>::bit);
    int const per = cfg.clauses / 2, C = per * L, n = (int)X.size();
    std::vector<Memo> memo(n);
    std::vector<std::vector<std::pair<int, int>>> orders;      // sequences of (sample, contrasted label)
    {
        std::vector<ivec> perms; ivec ix(n); for (int i = 0; i < n; ++i) ix[i] = i;
        do perms.push_back(ix); while (std::next_permutation(ix.begin(), ix.end()));
        std::vector<std::pair<int, int>> cur;
        std::function<void(unsigned, int, ivec const *)> rec = [&](unsigned e, int i, ivec const * p)
        {
            if (e == epochs) { orders.push_back(cur); return; }
            if (!p) { for (auto & q : perms) rec(e, 0, &q); return; }
            if (i == n) { rec(e + 1, 0, nullptr); return; }
            for (int o = 0; o < L; ++o) if (o != y[(*p)[i]]) { cur.push_back({(*p)[i], o}); rec(e, i + 1, p); cur.pop_back(); }
        };
        rec(0, 0, nullptr);
    }
    int const steps = n * (int)epochs, floats = steps * 2 * per;
    std::vector<typename Tr<E>::Sample> sx = mk<typename Tr<E>::Sample>(X);
    Seen seen;
    for (int v = 0; v < 6; ++v)
    {
        Snap s = S.base();
        for (int r = 0; r < 2 * C; ++r) for (int i = 0; i < F; ++i) s.ta[r][i] = v < 2 ? -1 - v % cfg.N : (r * 7 + i * 3 + v * 5 + r * v) % (2 * cfg.N) - cfg.N;
        for (size_t o = 0; o < s.w.size(); ++o) s.w[o] = (o + v) % 3;
        seen.insert(s.key());
        std::vector<std::vector<float>> pats{std::vector<float>(floats, NO), std::vector<float>(floats, YES)};
        for (int k = 0; k < floats; ++k) { pats.emplace_back(floats, NO); pats.back()[k] = YES; }
        for (int k = 2 * per; k < floats; k += 2 * per) { pats.emplace_back(floats, NO); std::fill_n(pats.back().begin(), k, YES); pats.emplace_back(floats, NO); std::fill(pats.back().begin() + k, pats.back().end(), YES); }
        // reach[order][clause][number of feedbacks]: possible states
        std::vector<std::vector<std::vector<std::set<Cl>>>> reach;
        for (auto & o : orders)
        {
            reach.emplace_back();
            for (int c = 0; c < C; ++c)
            {
                std::vector<std::set<Cl>> d(1, std::set<Cl>{get(s, c)});
                for (auto [i, opp] : o)
                {
                    int const l = c / per;
                    if (l != y[i] && l != opp) continue;
                    d.emplace_back();
                    for (int j = (int)d.size() - 2; j >= 0; --j)
                        for (auto & b : d[j]) { auto & f = fb(memo[i], b, X[i], clause_true(b, X[i]), (l == y[i]) == (c % per % 2 == 0), R); d[j + 1].insert(f.begin(), f.end()); }
                }
                reach.back().push_back(d);
            }
        }
        for (size_t pi = 0; pi < pats.size(); ++pi)
            for (unsigned rot : {0u, 5u})
            {
                std::vector<unsigned> pre;
                draw_tree({0u, 0xffffffffu}, rot ? 0 : D, pre, [&](std::vector<unsigned> const & iv)
                {
                    auto & st = S.st;
                    put(st, s); load_igen(st, iv, rot); load_fgen(st, pats[pi], NO);
                    E est(st);
                    if (shape) for (unsigned e = 0; e < epochs; ++e) ok(do_pfit(est, sx, y, L, 1), "partial_fit");
                    else ok(do_pfit(est, sx, y, L, epochs), "partial_fit");
                    auto p = est.clone_state();
                    auto a = snap(*p);
                    unsigned m = 0; for (unsigned k = 0; k < std::min<unsigned>(fdraws(*p), floats); ++k) m += pats[pi][k] == YES;
                    bool ok_ = false;
                    for (auto & r : reach)
                    {
                        unsigned sum = 0;
                        for (int c = 0; c < C && sum <= m; ++c)
                        {
                            Cl const g = get(a, c);
                            size_t j = pi == 1 ? r[c].size() - 1 : 0;
                            while (j < r[c].size() && !r[c][j].count(g)) ++j;
                            sum += j < r[c].size() ? (unsigned)j : m + 1;
                        }
                        if (sum <= m) { ok_ = true; break; }
                    }
                    CHECK(ok_, "training on X=%s%s%s y=%s for %u epochs%s, %u granted feedbacks: no sequence of legal steps leads from %s to %s", show(X[0]).c_str(), n > 1 ? "/" : "", n > 1 ? show(X[1]).c_str() : "", show(y).c_str(), epochs, shape ? " in as many calls" : "", m, s.show().c_str(), a.show().c_str());
                    traces(); transitions(steps);
                    return idraws(*p);
                });
            }
    }
    count("orders of samples", orders.size());
}

// Several steps with scores that reach the threshold.  With one feature and s = 1 a step is certain when
// every draw grants feedback, or none does: exact states for all orders of the samples.
template<class E> void exact_histories(Cfg cfg, int L, std::vector<int> const & X, ivec const & y, unsigned epochs, int shape, long long stride)
{
    cfg.s = 1.f;
    Stepper<E> S(cfg, 1, L);
    auto R = rules(cfg, 1, Tr<E>::bit);
    int const per = cfg.clauses / 2, C = per * L, V = 2 * cfg.N, n = (int)X.size();
    Memo memo[2];
    std::vector<ivec> xs; for (int x : X) xs.push_back({x});
    auto sx = mk<typename Tr<E>::Sample>(xs);
    long long total = 1; for (int i = 0; i < 2 * C; ++i) total *= V;
    Seen seen;
    for (long long v = 0; v < total; v += stride)
    {
        Snap s = S.base();
        long long q = v;
        for (int r = 0; r < 2 * C; ++r) { s.ta[r][0] = (int)(q % V) - cfg.N; q /= V; }
        for (size_t o = 0; o < s.w.size(); ++o) s.w[o] = (uint32_t)((v + o) % 3);
        seen.insert(s.key());
        for (int grant = 0; grant < 2; ++grant)
        {
            std::map<std::string, Snap> cur{{s.key(), s}};
            for (unsigned e = 0; e < epochs; ++e)
            {
                std::map<std::string, Snap> ends;
                ivec ix(n); for (int i = 0; i < n; ++i) ix[i] = i;
                do
                {
                    auto c = cur;
                    for (int i : ix)
                    {
                        std::map<std::string, Snap> nx;
                        for (auto & p : c) for (int opp = 0; opp < L; ++opp)
                        {
                            if (opp == y[i]) continue;
                            Snap a = p.second;
                            for (int l : {y[i], opp})
                            {
                                long long const sc = score(p.second, l, per, cfg.thr, xs[i], 1), num = l == y[i] ? cfg.thr - sc : cfg.thr + sc;
                                if (grant ? num > 0 : num == 2ll * cfg.thr)
                                    for (int o = l * per; o < (l + 1) * per; ++o)
                                    {
                                        Cl const b = get(p.second, o);
                                        auto & f = fb(memo[X[i]], b, xs[i], clause_true(b, xs[i]), (l == y[i]) == (o % per % 2 == 0), R);
                                        CHECK(f.size() == 1, "model: %zu results", f.size());
                                        set(a, o, *f.begin());
                                    }
                            }
                            nx.emplace(a.key(), a);
                        }
                        c = std::move(nx);
                    }
                    ends.insert(c.begin(), c.end());
                } while (std::next_permutation(ix.begin(), ix.end()));
                cur = std::move(ends);
            }
            for (unsigned rot : {0u, 1u, 3u})
            {
                auto & st = S.st;
                put(st, s); load_igen(st, {}, rot); load_fgen(st, {}, grant ? YES : NO);
                E est(st);
                if (shape) for (unsigned e = 0; e < epochs; ++e) ok(do_pfit(est, sx, y, L, 1), "partial_fit");
                else ok(do_pfit(est, sx, y, L, epochs), "partial_fit");
                auto a = snap(*est.clone_state());
                CHECK(cur.count(a.key()), "training on x=%s y=%s for %u epochs%s, T=%d, %s draws granted: %s does not lead to %s", show(ivec(X)).c_str(), show(y).c_str(), epochs, shape ? " in as many calls" : "", cfg.thr, grant ? "all" : "no", s.show().c_str(), a.show().c_str());
                traces(); transitions(n * epochs);
            }
        }
    }
}

void setup()
{
    for_classifiers([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string n = Tr<E>::name;
        for (int boost = 0; boost < 2; ++boost)
            for (int weighted = 0; weighted < 2; ++weighted)
            {
                Cfg c; c.boost = boost; c.weighted = weighted; c.maxw = weighted ? 3 : 2147483647; c.thr = 50;
                std::string f = fmt("%s boost=%d weighted=%d", n.c_str(), boost, weighted);
                for (int N : {1, 2, 3}) for (float s : {1.f, 2.f})
                {
                    c.N = N; c.s = s;
                    if (s == 1.f && N == 3) continue;
                    add(fmt("%s single F=1 N=%d s=%g", f.c_str(), N, s), [=]{ single<E>(c, 1, 2, 10, {0, 1}, 0, 1); });
                }
                c.N = 1;
                for (float s : {1.f, 1.6f, 2.f, 3.f, 1e6f})
                {
                    c.s = s;
                    int const parts = s < 2 ? 8 : 2;
                    for (int k = 0; k < parts; ++k) add(fmt("%s single F=2 N=1 s=%g %d", f.c_str(), s, k), [=]{ single<E>(c, 2, 2, tiered(8, 10), {weighted}, k, parts); });
                }
                c.N = 2; c.s = 3.f;
                int const parts = 8;
                if (thorough() || (boost != weighted)) for (int k = 0; k < parts; ++k)
                    add(fmt("%s single F=2 N=2 %d", f.c_str(), k), [=]{ single<E>(c, 2, 2, tiered(5, 8), {boost}, k, parts); });
                c.thr = 1; c.s = 2.f;
                for (int thr : {1, 2, 3})
                {
                    c.N = 1; c.thr = thr;
                    for (int k = 0; k < 4; ++k) add(fmt("%s joint N=1 thr=%d %d", f.c_str(), thr, k), [=]{ joint<E>(c, 2, k, 4); });
                }
                if (thorough()) { c.N = 2; c.thr = 2; for (int k = 0; k < 64; ++k) add(fmt("%s joint N=2 %d", f.c_str(), k), [=]{ joint<E>(c, 2, k, 64); }); }
                c.N = 1; c.thr = 50;
                add(f + " product", [=]{ product<E>(c); });
                std::vector<int> Fs;
                for (int F = 1; F <= 20; ++F) Fs.push_back(F);
                for (int F : {31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 192, 255, 256, 257, 500, 511, 512, 513, 640}) Fs.push_back(F);
                for (int coin = 0; coin < 2; ++coin)
                    for (auto [ct, N] : {std::pair<char const *, int>{"int8", 3}, {"int16", 3}, {"int32", 1}})
                        add(fmt("%s wide coin=%d %s N=%d", f.c_str(), coin, ct, N), [=]{ Cfg d = c; d.thr = 50; d.ctype = ct; d.N = N; for (int F : Fs) wide<E>(d, F, coin); });
            }
        for (int b = 0; b < 4; ++b)
        {
            Cfg c; c.boost = b & 1; c.weighted = b & 2; c.maxw = c.weighted ? 4 : 2147483647; c.thr = 50; c.clauses = 4;
            for (int shape = 0; shape < 2; ++shape) for (float sp : {1.f, 2.f}) for (int N : {2, 20})
            {
                c.s = sp; c.N = N;
                auto f = fmt("%s histories boost=%d weighted=%d s=%g N=%d calls=%d", n.c_str(), b & 1, b >> 1, sp, N, shape);
                unsigned const D = tiered(3, 5);
                add(f + " one sample", [=]{ histories<E>(c, 2, 2, {{0, 1}}, {1}, 3, shape, D); });
                add(f + " two samples", [=]{ histories<E>(c, 2, 2, {{0, 1}, {1, 1}}, {1, 0}, 2, shape, D); });
                if (!shape) add(f + " three samples", [=]{ histories<E>(c, 2, 2, {{0, 1}, {1, 1}, {0, 0}}, {1, 0, 1}, 1, shape, D); });
                add(f + " three labels", [=]{ histories<E>(c, 1, 3, {{1}, {0}}, {2, 0}, shape ? 2 : 1, shape, D); });
            }
        }
        for (auto [F, tile, jobs] : wide_shapes(Tr<E>::bit))
            add(fmt("%s lone literals F=%d tile=%d jobs=%d", n.c_str(), F, tile, jobs), [=, F = F, tile = tile, jobs = jobs]{ Cfg c; c.thr = 50; c.clauses = 4; c.tile = tile; c.jobs = jobs; c.boost = F % 2; lone<E>(c, F); });
        for (int b = 0; b < 4; ++b) for (int T : {1, 2, 3}) for (int shape = 0; shape < 2; ++shape)
        {
            Cfg c; c.boost = b & 1; c.weighted = b & 2; c.maxw = c.weighted ? 4 : 2147483647; c.thr = T; c.clauses = 4;
            add(fmt("%s exact histories boost=%d weighted=%d T=%d calls=%d", n.c_str(), b & 1, b >> 1, T, shape), [=]
            {
                Cfg d = c; d.N = 1;
                exact_histories<E>(d, 2, {0, 1}, {0, 1}, 3, shape, 1); exact_histories<E>(d, 2, {0, 1, 1}, {1, 0, 1}, 1, shape, tiered(3, 1));
                d.N = 2; exact_histories<E>(d, 2, {0, 1}, {1, 0}, 4, shape, tiered(401, 17));
                d.N = 1; exact_histories<E>(d, 3, {0, 1}, {2, 0}, 2, shape, tiered(61, 3));
            });
        }
        for (auto [per, L] : std::vector<std::pair<int, int>>{{2, 2}, {16, 2}, {30, 2}, {32, 3}, {34, 2}, {64, 2}, {66, 3}, {126, 2}, {128, 2}, {130, 2}, {254, 2}, {256, 2}, {258, 2}, {512, 2}, {514, 2}, {1000, 2}, {1026, 2}, {2, 8}, {2, 9}, {2, 16}, {2, 17}, {4, 33}, {2, 65}, {2, 130}, {2, 257}, {2, 300}})
            for (int N : {100, 128, 129, 40000, 2147483647})
            {
                Cfg c; c.N = N; c.boost = N % 2; c.jobs = L == 3 ? 2 : 1;
                add(fmt("%s large per=%d L=%d N=%d", n.c_str(), per, L, N), [=, per = per, L = L]
                {
                    for (int m : {0, 300, 70000, 2147483647}) for (int thr : {1, 50, 127, 128, 40000, 1000000})
                    {
                        Cfg d = c; d.weighted = m; d.maxw = m ? m : 2147483647; d.thr = thr;
                        if (per * L > 500 && !thorough() && thr != 50 && thr != 1000000) continue;
                        large<E>(d, per, L, per > 200 || L > 60 ? 2 : 5);
                    }
                });
            }
        for (int F : {1023, 4097, 8193, 16383, 16385, 32769, 65537, 140000})
            for (int N : {1, 129, 2147483647})
            {
                Cfg c; c.N = N; c.boost = N % 2; c.jobs = F % 2 ? 2 : 1; c.weighted = true; c.maxw = 300; c.tile = N == 1 ? 128 : 16;
                if (F > 70000 && !thorough() && N == 1) continue;
                add(fmt("%s large F=%d N=%d", n.c_str(), F, N), [=]{ Cfg d = c; for (int thr : {1, 1000000}) { d.thr = thr; large<E>(d, 2, 2, F); } });
            }
        for (auto [per, L] : std::vector<std::pair<int, int>>{{17000, 2}, {33000, 2}, {2, 17000}, {2, 33000}, {2, 66000}})
            add(fmt("%s large per=%d L=%d", n.c_str(), per, L), [=, per = per, L = L]{ Cfg d; d.weighted = true; d.maxw = 300; d.N = 100; for (int thr : {50, 100000000}) { d.thr = thr; large<E>(d, per, L, 1); } });
        for (int L : {2, 3, 4, 5}) add(fmt("%s labels L=%d", n.c_str(), L), [=]{ labels<E>(L); });
    });
}
