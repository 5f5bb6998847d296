// C01: at prediction a clause is the conjunction of exactly its included literals.
// Clause outputs are read through the public API only: clause weights are distinct
// powers of two and the threshold is out of reach, so that a response (or the pair of
// label scores) determines every clause output.
#include "glue.hpp"
#include <array>
using namespace vf;

static Cfg cfg_for(bool cls, int C)   // C clause outputs
{
    Cfg c; c.weighted = true; c.thr = std::numeric_limits<int>::max(); c.clauses = cls ? C / 2 * 2 : 2 * C;
    return c;
}

template<class E> void compare(typename Tr<E>::State const & st, Snap const & s, std::vector<ivec> const & X, int thr, char const * what)
{
    E est(st);
    auto Xs = mk<typename Tr<E>::Sample>(X);
    transitions(X.size()); traces();
    if constexpr (Tr<E>::cls)
    {
        auto r = take(est.decision_function(Xs), "decision_function");
        CHECK(r.size() == X.size(), "%s: %zu answers for %zu samples", what, r.size(), X.size());
        for (size_t i = 0; i < X.size(); ++i)
        {
            auto want = ref::scores(s, 2, thr, X[i], 0), got = to_ivec(r[i]);
            CHECK(got == want, "%s: x=%s (sample %zu): scores %s, clauses evaluated by definition give %s; state %s", what, show(X[i]).c_str(), i, show(got).c_str(), show(want).c_str(), s.show().c_str());
        }
    }
    else
    {
        auto r = take(est.predict(Xs), "predict");
        CHECK(r.size() == X.size(), "%s: %zu answers for %zu samples", what, r.size(), X.size());
        for (size_t i = 0; i < X.size(); ++i)
        {
            int want = ref::response(s, thr, X[i], 0);
            CHECK(r[i] == want, "%s: x=%s (sample %zu): clause outputs %x, by definition %x; state %s", what, show(X[i]).c_str(), i, r[i], want, s.show().c_str());
        }
    }
}

template<class E> void pow2_weights(Snap & s)
{
    int C = s.rows / 2;
    for (int o = 0; o < C; ++o) s.w[o] = (1u << (Tr<E>::cls ? o % (C / 2) : o)) - 1;
}

// every pattern of included literals on F features, on every sample
template<class E> void small(int F, Cfg c, int jobs, int tile, std::string ctype, int N)
{
    int const C = Tr<E>::cls ? 8 : 4;
    auto base = cfg_for(Tr<E>::cls, C);
    base.jobs = jobs; base.tile = tile; base.ctype = ctype; base.N = N;
    auto st = fitted_state<E>(base, F, 2);
    auto s = snap(st);
    CHECK(s.rows == 2 * C && s.cols == F, "shape of the automata is %dx%d, not %dx%d", s.rows, s.cols, 2 * C, F);
    pow2_weights<E>(s);
    std::vector<ivec> X;
    for (int v = 0; v < 1 << F; ++v) X.push_back(bits(v, F));
    Seen seen;
    int const P = 1 << (2 * F);
    // clause o takes patterns o, o+1, ...: every pattern in every clause position
    for (int p = 0; p < P; ++p)
        for (int lv = 0; lv < 3; ++lv)     // how an exclusion / inclusion is stored: at the boundary, at the limits, in between
        {
            int const out = lv == 0 ? -1 : lv == 1 ? -N : -(N + 1) / 2, in = lv == 0 ? 0 : lv == 1 ? N - 1 : N / 2;
            for (int o = 0; o < C; ++o)
                for (int i = 0; i < F; ++i)
                {
                    int q = (p + o * 5) % P;
                    s.ta[2 * o][i] = q >> (2 * i) & 1 ? in : out;
                    s.ta[2 * o + 1][i] = q >> (2 * i + 1) & 1 ? in : out;
                }
            put(st, s);
            seen.insert(s.key());
            compare<E>(st, s, X, base.thr, "small");
        }
    count("patterns", 3ull * P);
}

// one included literal per clause at every given position, on samples that differ in every given position
template<class E> void singles(int F, int tile, int jobs, std::vector<int> pos)
{
    int const C = Tr<E>::cls ? 48 : 28;
    auto base = cfg_for(Tr<E>::cls, C);
    base.jobs = jobs; base.tile = tile;
    auto st = fitted_state<E>(base, F, 2);
    auto s = snap(st);
    pow2_weights<E>(s);
    if (pos.empty()) { pos.resize(F); std::iota(pos.begin(), pos.end(), 0); }
    std::vector<ivec> X;
    for (int bg = 0; bg < 2; ++bg)
    {
        X.push_back(ivec(F, bg));
        for (int p : pos) { ivec x(F, bg); x[p] = !bg; X.push_back(x); }
    }
    Seen seen;
    for (auto & r : s.ta) for (auto & v : r) v = -1;
    for (size_t b = 0; b < 2 * pos.size(); b += C)
    {
        std::vector<std::pair<int, int>> on;
        for (int o = 0; o < C && b + o < 2 * pos.size(); ++o) on.push_back({2 * o + (b + o) % 2, pos[(b + o) / 2]});
        for (auto [r, c] : on) s.ta[r][c] = 0;
        put(st, s);
        seen.insert(s.key());
        compare<E>(st, s, X, base.thr, "single literal");
        for (auto [r, c] : on) s.ta[r][c] = -1;
    }
    count("single literals", 2 * pos.size());
}

// pairs of included literals at the given positions, all values of the two features, both backgrounds
template<class E> void pairs(int F, int tile, int jobs, std::vector<int> const & pos)
{
    int const C = Tr<E>::cls ? 48 : 28;
    auto base = cfg_for(Tr<E>::cls, C);
    base.jobs = jobs; base.tile = tile;
    auto st = fitted_state<E>(base, F, 2);
    auto s = snap(st);
    pow2_weights<E>(s);
    for (auto & r : s.ta) for (auto & v : r) v = -1;
    std::vector<ivec> X;
    for (int bg = 0; bg < 2; ++bg)
        for (size_t i = 0; i < pos.size(); ++i)
            for (size_t j = i; j < pos.size(); ++j) { ivec x(F, bg); x[pos[i]] = !bg; x[pos[j]] = !bg; X.push_back(x); }
    std::vector<std::array<int, 4>> ls;   // (sign, position) x 2
    for (size_t i = 0; i < pos.size(); ++i)
        for (size_t j = i; j < pos.size(); ++j)
            for (int sg = 0; sg < 4; ++sg) if (i != j || sg != 2) ls.push_back({sg & 1, pos[i], sg >> 1, pos[j]});
    Seen seen;
    for (size_t b = 0; b < ls.size(); b += C)
    {
        for (int o = 0; o < C && b + o < ls.size(); ++o) { auto l = ls[b + o]; s.ta[2 * o + l[0]][l[1]] = 0; s.ta[2 * o + l[2]][l[3]] = 0; }
        put(st, s);
        seen.insert(s.key());
        compare<E>(st, s, X, base.thr, "pair of literals");
        for (int o = 0; o < C && b + o < ls.size(); ++o) { auto l = ls[b + o]; s.ta[2 * o + l[0]][l[1]] = -1; s.ta[2 * o + l[2]][l[3]] = -1; }
    }
    count("literal pairs", ls.size());
}

// long conjunctions: all literals of a range, on samples that meet all of them, or all but one
template<class E> void dense(int F, int tile, int jobs)
{
    int const C = Tr<E>::cls ? 48 : 28;
    auto base = cfg_for(Tr<E>::cls, C);
    base.jobs = jobs; base.tile = tile;
    auto st = fitted_state<E>(base, F, 2);
    auto s = snap(st);
    pow2_weights<E>(s);
    Seen seen;
    for (int pat = 0; pat < 4; ++pat)
    {
        ivec good(F); for (int i = 0; i < F; ++i) good[i] = pat == 0 ? 1 : pat == 1 ? 0 : pat == 2 ? i % 2 : (i * i + i / 5) % 3 == 0;
        std::vector<ivec> X{good}; for (int i = 0; i < F; ++i) { auto x = good; x[i] = !x[i]; X.push_back(x); }
        for (auto & r : s.ta) for (auto & v : r) v = -1;
        for (int o = 0; o < C; ++o)
        {
            int lo = o % 4 == 0 ? 0 : o % 4 == 1 ? F / 3 : o % 4 == 2 ? F - F / (1 + o / 4) : o / 4 % F, hi = o % 4 == 0 ? F - o / 4 : o % 4 == 1 ? F / 3 + 1 + o * 7 : o % 4 == 2 ? F : F;
            for (int i = std::max(0, lo); i < std::min(F, hi); ++i) if (o % 4 != 3 || (i + o) % 3) s.ta[2 * o + !good[i]][i] = 0;
        }
        put(st, s);
        seen.insert(s.key());
        compare<E>(st, s, X, base.thr, "long conjunction");
    }
    count("long conjunctions", 4 * C);
}

// many clauses and labels: each clause alone true, and all of them at once
template<class E> void many(int per, int L, int F, int jobs)
{
    auto c = cfg_for(Tr<E>::cls, 4); c.clauses = 2 * per; c.jobs = jobs;
    auto st = fitted_state<E>(c, F, L);
    auto s = snap(st);
    int const C = s.rows / 2;
    std::vector<ivec> X; for (int v = 0; v < 1 << F; ++v) X.push_back(bits(v, F));
    auto Xs = mk<typename Tr<E>::Sample>(X);
    for (int o = 0; o < C; ++o) s.w[o] = (uint32_t)(o * 37ll * o % 10007);
    Seen seen;
    auto judge = [&](char const * what)
    {
        put(st, s); seen.insert(s.key());
        E est(st);
        transitions(X.size()); traces();
        if constexpr (Tr<E>::cls)
        {
            auto r = take(est.decision_function(Xs), "decision_function");
            for (size_t i = 0; i < X.size(); ++i) { auto want = ref::scores(s, L, c.thr, X[i], 0), got = to_ivec(r[i]); CHECK(got == want, "%s, %d clauses per label, %d labels: x=%s: scores %s, by definition %s", what, per, L, show(X[i]).c_str(), show(got).c_str(), show(want).c_str()); }
        }
        else
        {
            auto r = take(est.predict(Xs), "predict");
            for (size_t i = 0; i < X.size(); ++i) { int const want = ref::response(s, c.thr, X[i], 0); CHECK(r[i] == want, "%s, %d clauses: x=%s: %d, by definition %d", what, C, show(X[i]).c_str(), r[i], want); }
        }
    };
    for (auto & r : s.ta) for (auto & v : r) v = -1;
    // every clause but one is false
    for (int o = 0; o < C; ++o) s.ta[2 * o][0] = s.ta[2 * o + 1][0] = 0;
    std::set<int> near{0, 1, C - 2, C - 1};
    for (int b = 5; b < 20; ++b) for (int d : {-1, 0, 1}) if ((1 << b) + d < C) near.insert((1 << b) + d);
    for (int o = 0; o < C; ++o)
    {
        if (C > 5000 ? !near.count(o) : C > 600 && !thorough() && o > 40 && o < C - 40 && o % 13) continue;
        int const lit = o % (2 * F);
        s.ta[2 * o][0] = s.ta[2 * o + 1][0] = -1; s.ta[2 * o + lit / F][lit % F] = 0;
        judge("one clause");
        s.ta[2 * o + lit / F][lit % F] = -1; s.ta[2 * o][0] = s.ta[2 * o + 1][0] = 0;
    }
    for (int shift = 0; shift < (C > 5000 ? 3 : 30); ++shift)
    {
        for (int r = 0; r < s.rows; ++r) for (int i = 0; i < F; ++i) s.ta[r][i] = ((unsigned)(r * 2654435761u + i * 40503u + shift * 97u) >> 7) % 4 ? -1 : 0;
        judge("all clauses");
    }
    count("clauses", C);
}

// tens of thousands of features: single literals next to the powers of two
template<class E> void vast_rows(int F, int tile, int jobs)
{
    int const C = Tr<E>::cls ? 48 : 28;
    auto base = cfg_for(Tr<E>::cls, C);
    base.jobs = jobs; base.tile = tile;
    auto st = fitted_state<E>(base, F, 2);
    auto s = snap(st);
    pow2_weights<E>(s);
    std::set<int> near{0, 1, F / 2, F - 2, F - 1};
    for (int b = 6; b < 20; ++b) for (int d : {-1, 0, 1}) if ((1 << b) + d < F) near.insert((1 << b) + d);
    std::vector<int> lits; for (int f : near) for (int n : {0, 1}) lits.push_back(2 * f + n);
    ivec zero(F, 0), one(F, 1);
    std::vector<ivec> X{zero, one};
    for (int f : near) { auto x = zero; x[f] = 1; X.push_back(x); x = one; x[f] = 0; X.push_back(x); }
    Seen seen;
    for (size_t k = 0; k < lits.size(); k += C)
    {
        for (auto & r : s.ta) for (auto & v : r) v = -1;
        for (int o = 0; o < C; ++o) { int const l = lits[(k + o) % lits.size()]; s.ta[2 * o + l % 2][l / 2] = 0; }
        put(st, s);
        seen.insert(fmt("%d %zu", F, k));
        compare<E>(st, s, X, base.thr, "single literal");
    }
    count("single literals", lits.size());
}

// batches that hold every sample
template<class E> void everything(int F, int jobs)
{
    int const C = Tr<E>::cls ? 48 : 28;
    auto base = cfg_for(Tr<E>::cls, C); base.jobs = jobs;
    auto st = fitted_state<E>(base, F, 2);
    auto s = snap(st);
    pow2_weights<E>(s);
    for (int r = 0; r < s.rows; ++r) for (int i = 0; i < F; ++i) s.ta[r][i] = (r * 7 + i * 5 + r * i) % 9 == 0 ? 0 : -1;
    std::vector<ivec> X; for (int v = 0; v < 1 << F; ++v) X.push_back(bits(v, F));
    put(st, s);
    Seen seen; seen.insert(s.key());
    compare<E>(st, s, X, base.thr, "all samples");
    count("samples in one batch", X.size());
}

static std::vector<int> boundary(int F, int unit)   // around multiples of the unit and at the ends
{
    std::set<int> b{0, 1, F / 2, F - 2, F - 1};
    for (int k : {1, 2, 3}) for (int d : {-1, 0, 1}) b.insert(k * unit + d);
    int last = F / unit * unit;
    for (int d : {-1, 0, 1}) b.insert(last + d);
    std::vector<int> r;
    for (int v : b) if (v >= 0 && v < F) r.push_back(v);
    return r;
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string n = Tr<E>::name;
        for (int F = 1; F <= 3; ++F)
            for (int tile : {16, 32, 64, 128})
                for (int jobs : {1, 3})
                    add(fmt("%s small F=%d tile=%d jobs=%d", n.c_str(), F, tile, jobs), [=]{ small<E>(F, {}, jobs, tile, "auto", 100); });
        if (thorough()) add(n + " small F=4", []{ small<E>(4, {}, 1, 16, "auto", 100); });
        for (auto [ct, N] : {std::pair<char const *, int>{"int8", 127}, {"int16", 127}, {"int32", 127}, {"auto", 128}, {"auto", 32767}, {"auto", 32768}, {"auto", 2147483647}, {"int8", 1}})
            add(fmt("%s small F=2 %s N=%d", n.c_str(), ct, N), [=]{ small<E>(2, {}, 1, 64, ct, N); });
        // every number of features up to a bound, every position
        for (int tile : {16, 32, 64, 128})
            for (int F0 = 1; F0 <= tiered(144, 288); F0 += 12)
                add(fmt("%s singles F=%d.. tile=%d", n.c_str(), F0, tile), [=]
                {
                    for (int F = F0; F < F0 + 12; ++F) if (thorough() || F <= 40 || F % 16 <= 2 || F % 16 >= 14) singles<E>(F, tile, 1 + (F % 2) * 2, {});
                });
        for (int tile : {16, 32, 64, 128})
        {
            int const unit = Tr<E>::bit ? 64 * tile : tile;
            std::vector<int> Fs;
            for (int k : {1, 2, 3}) for (int d : {-1, 0, 1}) Fs.push_back(k * unit + d);
            if (Tr<E>::bit) for (int d : {63, 64, 65}) { Fs.push_back(unit + d); Fs.push_back(unit - d); }
            for (int F : Fs)
            {
                if (!thorough() && F > 2 * unit + 1 && tile > 32 && Tr<E>::bit) continue;
                add(fmt("%s boundary F=%d tile=%d", n.c_str(), F, tile), [=]
                {
                    auto b = boundary(F, unit);
                    if (Tr<E>::bit) for (int q : {62, 63, 64, 65, 127, 128, unit + 63, unit + 64}) if (q < F) b.push_back(q);
                    std::sort(b.begin(), b.end()); b.erase(std::unique(b.begin(), b.end()), b.end());
                    singles<E>(F, tile, 1, b);
                    if (F < 2200 || thorough()) { pairs<E>(F, tile, 1, b); pairs<E>(F, tile, 4, b); }
                    else { std::vector<int> few; for (size_t i = 0; i < b.size(); i += 3) few.push_back(b[i]); few.push_back(F - 1); few.erase(std::unique(few.begin(), few.end()), few.end()); pairs<E>(F, tile, 2, few); }
                });
            }
        }
        // the path of whole batches, every position of it
        if (Tr<E>::bit) add(n + " all positions beyond a batch", [=]{ singles<E>(1024 + 70, 16, 1, {}); });
        for (int tile : {16, 32, 64, 128})
            for (int F0 : {3, 20, 40, 60, 80, 100, 120, 140, 190, 250, 318, 508, 1020, 2046})
                if (thorough() || F0 < 1000 || tile == 16 || (!Tr<E>::bit && tile == 128))
                add(fmt("%s dense F=%d.. tile=%d", n.c_str(), F0, tile), [=]{ for (int F = F0; F < F0 + (F0 < 300 ? 12 : F0 < 1000 ? 6 : 5); F += F0 < 1000 ? 1 : 2) dense<E>(F, tile, F % 3 ? 1 : 3); });
        for (auto [per, L, F] : std::vector<std::array<int, 3>>{{2, 8, 3}, {2, 9, 3}, {2, 16, 3}, {2, 17, 2}, {4, 33, 2}, {2, 65, 3}, {2, 130, 2}, {2, 257, 2}, {10, 2, 4}, {16, 2, 3}, {32, 2, 3}, {34, 3, 3}, {64, 2, 3}, {66, 2, 3}, {126, 2, 2}, {128, 2, 3}, {130, 2, 3}, {256, 2, 2}, {258, 2, 2}, {512, 2, 2}, {514, 2, 2}, {1026, 2, 2}, {2050, 2, 2}, {32770, 2, 1}, {66002, 2, 1}, {2, 33000, 1}, {2, 66000, 1}})
            for (int jobs : {1, 5})
                if (Tr<E>::cls || L == 2) add(fmt("%s many per=%d L=%d jobs=%d", n.c_str(), per, L, jobs), [=, per = per, L = L, F = F]{ many<E>(per, L, F, jobs); });
        for (int F : tiered<std::vector<int>>({16383, 16384, 16385, 65537}, {8191, 16383, 16384, 16385, 32767, 32769, 65535, 65536, 65537, 131071, 131073}))
            add(fmt("%s vast F=%d", n.c_str(), F), [=]{ vast_rows<E>(F, F % 2 ? 16 : 128, F % 3 ? 1 : 3); });
        for (int F : {9, 10, 14, tiered(16, 18)}) add(fmt("%s all samples of %d features", n.c_str(), F), [=]{ everything<E>(F, F % 4 ? 1 : 3); });
        // few clauses, more jobs than clauses
        for (int jobs : {2, 3, 5, 8})
            add(fmt("%s jobs=%d", n.c_str(), jobs), [=]{ singles<E>(20, 16, jobs, {}); singles<E>(70, 32, jobs, {}); pairs<E>(35, 16, jobs, boundary(35, 16)); });
    });
}
