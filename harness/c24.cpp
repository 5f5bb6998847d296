// C24: the shape of a fitted model, for all combinations of features, labels, requested labels,
// number of states, counting type, weights and clauses of a grid; and the starting values of all automata.
#include "life.hpp"
#include <array>
using namespace vf;

static int width_needed(int N) { return N <= 127 ? 1 : N <= 32767 ? 2 : 4; }

template<class E> void shape(Cfg const & c, int F, int hi, int maxl, unsigned epochs, int n)
{
    using S = typename Tr<E>::Sample;
    bool const cls = Tr<E>::cls;
    note("%s F=%d highest label %d requested %d clauses=%d N=%d %s epochs=%u", Tr<E>::name, F, hi, maxl, c.clauses, c.N, c.ctype.c_str(), epochs);
    int const L = cls ? std::max(maxl, hi + 1) : 1;
    std::vector<ivec> X; ivec y;
    for (int i = 0; i < n; ++i) { ivec x(F); for (int f = 0; f < F; ++f) x[f] = (i >> f % 3) & 1; X.push_back(x); y.push_back(cls ? (i == n / 2 ? hi : i % (hi + 1)) : i % (c.thr + 1)); }
    if (cls && n == 1 && y[0] != hi) y[0] = hi;
    auto sx = mk<S>(X);
    E e = make<E>(c);
    ok(do_fit(e, sx, y, maxl, epochs), "fit");
    auto p = e.clone_state();
    auto s = snap(*p);
    int const outs = cls ? c.clauses / 2 * L : c.clauses / 2;
    CHECK(s.rows == 2 * outs && s.cols == F, "automata of %d x %d instead of %d x %d (two per clause and feature)", s.rows, s.cols, 2 * outs, F);
    CHECK((int)s.w.size() == (c.weighted ? outs : 0), "%zu weights for %d clauses, weighted: %d", s.w.size(), outs, (int)c.weighted);
    int const w = ta_width(*p), need = width_needed(c.N);
    CHECK(w >= need, "automata of %d bytes for %d states", w, c.N);
    if (c.ctype == "auto") CHECK(w == need, "automatic counting type: %d bytes per automaton for %d states", w, c.N);
    if (c.ctype != "auto") { int const given = c.ctype == "int8" ? 1 : c.ctype == "int16" ? 2 : 4; CHECK(w == std::max(given, need), "counting type %s: %d bytes per automaton for %d states", c.ctype.c_str(), w, c.N); }
    if (epochs == 0)
    {
        for (auto & r : s.ta) for (int v : r) CHECK(v == 0 || v == -1, "an automaton starts at %d", v);
        for (auto v : s.w) CHECK(v == 0, "a weight starts at %u", v + 1);
    }
    // answers
    auto labels = to_ivec(take(e.predict(sx), "predict"));
    CHECK(labels.size() == sx.size(), "%zu answers for %zu samples", labels.size(), sx.size());
    for (int v : labels) CHECK(v >= 0 && v <= (cls ? L - 1 : c.thr), "predicted %d", v);
    if constexpr (Tr<E>::cls)
    {
        auto d = take(e.decision_function(sx), "decision_function");
        CHECK(d.size() == sx.size(), "%zu score vectors for %zu samples", d.size(), sx.size());
        for (auto & v : d) CHECK((int)v.size() == L, "%zu scores for %d labels", v.size(), L);
        CHECK((int)take(e.decision_function(sx[0]), "decision_function").size() == L, "scores of one sample");
        auto sc = take(e.evaluate(sx, y), "evaluate");
        CHECK(sc >= 0 && sc <= 1, "accuracy %g", (double)sc);
        // the highest label is known, the next one is not
        std::vector<S> one{sx[0]};
        CHECK(e.partial_fit(one, ivec{L - 1}, T::max_number_of_labels_t{-1}, T::number_of_epochs_t{0}).first == T::S_OK, "label %d of %d refused", L - 1, L);
        CHECK(e.partial_fit(one, ivec{L}, T::max_number_of_labels_t{-1}, T::number_of_epochs_t{0}).first != T::S_OK, "label %d of %d accepted", L, L);
    }
    // the number of features is the one of the data
    CHECK(!e.predict(sx[0]).isLeft, "a row of %d features refused", F);
    CHECK(e.predict(mk<S>(ivec(F + 1, 0))).isLeft, "a row of %d features accepted", F + 1);
    if (F > 1) CHECK(e.predict(mk<S>(ivec(F - 1, 0))).isLeft, "a row of %d features accepted", F - 1);
    transitions(8); traces();
    static std::set<std::string> seen;
    if (seen.insert(fmt("%s %d %d %d %d %d %d %u", Tr<E>::name, F, hi, maxl, c.clauses, c.N, n, epochs) + c.ctype + (c.weighted ? "w" : "")).second) states();
}

// every automaton can start on either side, independently of each other one (pairwise, over seeds)
template<class E> void starts(int F, int seeds)
{
    Cfg c; c.clauses = 8;
    std::vector<std::string> v;         // per seed
    Seen seen;
    for (int s = 1; s <= seeds; ++s)
    {
        c.seed = s;
        auto st = fitted_state<E>(c, F, 2);
        auto sn = snap(st);
        std::string k;
        for (auto & r : sn.ta) for (int x : r) { CHECK(x == 0 || x == -1, "an automaton starts at %d", x); k += x == 0 ? '1' : '0'; }
        seen.insert(k); v.push_back(k); traces(); transitions();
    }
    size_t const n = v[0].size();
    for (size_t a = 0; a < n; ++a)
    {
        int ones = 0; for (auto & k : v) ones += k[a] == '1';
        CHECK(ones >= seeds / 8 && ones <= seeds - seeds / 8, "automaton %zu starts on the include side for %d of %d seeds", a, ones, seeds);
        for (size_t b = 0; b < a; ++b)
        {
            int combo[4] = {0, 0, 0, 0};
            for (auto & k : v) ++combo[(k[a] == '1') * 2 + (k[b] == '1')];
            for (int q = 0; q < 4; ++q) CHECK(combo[q], "automata %zu and %zu never start in combination %d", b, a, q);
        }
    }
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        bool const cls = Tr<E>::cls;
        std::string n = Tr<E>::name;
        for (int F : {1, 2, 7, 8, 63, 64, 65, 127, 128, 129, 513})
            add(n + fmt("/shapes F=%d", F), [=]
            {
                for (int clauses : {4, 8, 20, 36})
                    for (int hi : cls ? std::vector<int>{0, 1, 2, 5} : std::vector<int>{0})
                        for (int maxl : cls ? std::vector<int>{-1, 0, 1, 2, 3, 4, 9} : std::vector<int>{2})
                        {
                            if (cls && std::max(maxl, hi + 1) < 2) continue;
                            for (bool w : {false, true})
                                for (unsigned ep : {0u, 1u})
                                    for (int m : {1, 3, 8})
                                    {
                                        Cfg c; c.clauses = clauses; c.weighted = w; c.thr = 4;
                                        if (F > 100 && m == 8) continue;
                                        shape<E>(c, F, hi, maxl, ep, m);
                                    }
                        }
                if (!cls) for (int clauses : {2, 6, 10}) { Cfg c; c.clauses = clauses; c.weighted = clauses % 4; shape<E>(c, F, 0, 1, 1, 3); }
            });
        for (auto [cl, hi, F] : std::vector<std::array<int, 3>>{{64, 1, 3}, {68, 2, 65}, {100, 1, 9}, {128, 1, 2}, {132, 1, 5}, {256, 1, 2}, {260, 2, 3}, {512, 1, 2}, {516, 1, 1}, {1028, 1, 2}, {4000, 1, 1}, {4, 7, 3}, {4, 8, 3}, {4, 15, 2}, {4, 16, 65}, {4, 40, 2}, {8, 127, 2}, {4, 128, 2}, {4, 255, 1}, {4, 256, 2}, {4, 300, 3}, {4, 1000, 1}, {4, 1, 1000}, {4, 1, 1023}, {4, 1, 1024}, {4, 2, 1025}, {4, 1, 2049}, {4, 1, 5000}, {8, 1, 8193}, {4, 1, 16385}, {4, 1, 33000}, {4, 1, 66000}, {4, 17000, 1}, {4, 33000, 1}, {4, 66000, 1}, {33004, 1, 1}, {66004, 1, 1}, {132000, 1, 1}})
            add(n + fmt("/shapes clauses=%d highest=%d F=%d", cl, hi, F), [=, cl = cl, hi = hi, F = F]
            {
                for (int more : {-1, 0, 1, 3}) for (bool w : {false, true}) for (unsigned ep : {0u, 1u}) for (int N : {3, 200, 40000})
                {
                    if (!cls && more > 0) continue;
                    Cfg c; c.clauses = cl; c.weighted = w; c.thr = 400; c.N = N; c.jobs = 1 + cl % 3;
                    shape<E>(c, F, cls ? hi : 0, cls ? (more < 0 ? -1 : hi + more) : 2, ep, 3);
                }
            });
        for (std::string ct : {"auto", "int8", "int16", "int32"})
            add(n + "/counting type " + ct, [=]
            {
                for (int N : {1, 2, 3, 10, 100, 126, 127, 128, 129, 130, 254, 255, 256, 257, 1000, 16383, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 70000, 1 << 24, std::numeric_limits<int>::max()})
                    for (int F : {1, 65})
                        for (bool w : {false, true})
                            for (unsigned ep : {0u, 2u}) { Cfg c; c.N = N; c.ctype = ct; c.weighted = w; shape<E>(c, F, cls ? 2 : 0, 2, ep, 4); }
            });
        for (int F : {1, 3, 65}) add(n + fmt("/starting values F=%d", F), [=]{ starts<E>(F, 64); });
        // after a life with other shapes
        for (auto & [ln, c] : life_cfgs(cls))
        {
            Cfg cc = c;
            add(n + "/lives " + ln, [=]
            {
                Life<E> life(cc);
                using S = typename Tr<E>::Sample;
                struct D_ { Set d; int L; };
                std::vector<D_> ds{{life.A(), 2}, {life.B(), 3}, {life.C(), 2}, {life.B(), 7}, {life.D(), 4}};
                for (auto & d : ds) { life.fit(d.d, d.L, 0); life.fit(d.d, d.L, 2); life.pfit(d.d, d.L, 1); }
                // the shape is that of the last fit, or of the first partial_fit if there was none before
                std::function<void(E &, int, int, int, std::string)> rec = [&](E & e, int depth, int F, int L, std::string path)
                {
                    if (depth == 0) return;
                    for (auto & d : ds)
                        for (int kind = 0; kind < 3; ++kind)
                        {
                            auto p = e.clone_state(); E f(*p);
                            int nF = F, nL = L;
                            auto X = mk<S>(d.d.X);
                            auto hi = *std::max_element(d.d.y.begin(), d.d.y.end());
                            auto s = kind == 2 ? do_pfit(f, X, d.d.y, d.L, 1) : do_fit(f, X, d.d.y, d.L, kind ? 2 : 0);
                            if (s.first == T::S_OK && (kind != 2 || !F)) { nF = d.d.F; nL = std::max(d.L, hi + 1); }
                            if (kind != 2) CHECK(s.first == T::S_OK, "%s: fit refused", path.c_str());
                            auto pp = path + fmt(", %s %s", kind == 2 ? "partial_fit" : "fit", d.d.name.c_str());
                            note("%s", pp.c_str());
                            auto q = f.clone_state();
                            if (nF)
                            {
                                auto sn = snap(*q);
                                int const outs = cc.clauses / 2 * (cls ? nL : 1);
                                CHECK(sn.cols == nF && sn.rows == 2 * outs && (int)sn.w.size() == (cc.weighted ? outs : 0), "%s: automata of %d x %d and %zu weights instead of %d x %d and %d", pp.c_str(), sn.rows, sn.cols, sn.w.size(), 2 * outs, nF, cc.weighted ? outs : 0);
                                if constexpr (Tr<E>::cls) CHECK((int)take(f.decision_function(mk<S>(ivec(nF, 1))), "decision_function").size() == nL, "%s: scores", pp.c_str());
                                CHECK(!f.predict(mk<S>(ivec(nF, 1))).isLeft && f.predict(mk<S>(ivec(nF + 1, 1))).isLeft, "%s: features", pp.c_str());
                                if (kind == 0) for (auto & r : sn.ta) for (int v : r) CHECK(v == 0 || v == -1, "%s: an automaton starts at %d", pp.c_str(), v);
                                if (kind == 0) for (auto v : sn.w) CHECK(v == 0, "%s: a weight starts at %u", pp.c_str(), v + 1);
                            }
                            traces(); states();
                            rec(f, depth - 1, nF, nL, pp);
                        }
                };
                E e = make<E>(cc);
                rec(e, tiered(2, 3), 0, 0, "new");
            });
        }
    });
}
