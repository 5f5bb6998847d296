// C02: votes, scores, decisions and accuracy.  Clause o includes just literal o, so that the
// samples of a batch run through every vector of clause outputs.
#include "glue.hpp"
using namespace vf;

template<class E> void one_hot(Snap & s)
{
    for (auto & r : s.ta) for (auto & t : r) t = -1;
    for (int o = 0; o < s.rows / 2; ++o) s.ta[2 * o][o % s.cols] = 0;
}

struct Want { std::vector<ivec> scores; ivec answer; };

template<class E> Want expected(Snap const & s, std::vector<ivec> const & X, int L, int thr)
{
    Want w;
    for (auto & x : X)
    {
        if (Tr<E>::cls) { w.scores.push_back(ref::scores(s, L, thr, x, 0)); w.answer.push_back(ref::argmax(w.scores.back())); }
        else w.answer.push_back(ref::response(s, thr, x, 0));
    }
    return w;
}

template<class E> void compare(E const & est, std::vector<typename Tr<E>::Sample> const & X, std::vector<ivec> const & raw, Want const & w, bool singles, std::string const & what)
{
    transitions(X.size()); traces(X.size());
    auto p = take(est.predict(X), "predict");
    CHECK(p.size() == X.size(), "%s: %zu predictions for %zu samples", what.c_str(), (size_t)p.size(), X.size());
    for (size_t i = 0; i < X.size(); ++i) CHECK(p[i] == w.answer[i], "%s: sample %zu (%s): predicted %d, not %d", what.c_str(), i, show(raw[i]).c_str(), p[i], w.answer[i]);
    if constexpr (Tr<E>::cls)
    {
        auto d = take(est.decision_function(X), "decision_function");
        CHECK(d.size() == X.size(), "%s: %zu score vectors for %zu samples", what.c_str(), (size_t)d.size(), X.size());
        for (size_t i = 0; i < X.size(); ++i) CHECK(to_ivec(d[i]) == w.scores[i], "%s: sample %zu (%s): scores %s, not %s", what.c_str(), i, show(raw[i]).c_str(), show(to_ivec(d[i])).c_str(), show(w.scores[i]).c_str());
    }
    if (singles) for (size_t i = 0; i < X.size(); ++i)
    {
        auto v = take(est.predict(X[i]), "predict");
        CHECK(v == w.answer[i], "%s: single sample %s: predicted %d, not %d", what.c_str(), show(raw[i]).c_str(), (int)v, w.answer[i]);
        if constexpr (Tr<E>::cls)
        {
            auto d = to_ivec(take(est.decision_function(X[i]), "decision_function"));
            CHECK(d == w.scores[i], "%s: single sample %s: scores %s, not %s", what.c_str(), show(raw[i]).c_str(), show(d).c_str(), show(w.scores[i]).c_str());
        }
    }
}

// every clause output vector x weights x thresholds
template<class E> void patterns(int L, int per, bool weighted, int jobs)
{
    int const C = Tr<E>::cls ? L * per : per;
    std::vector<ivec> X;
    for (int v = 0; v < 1 << C; ++v) X.push_back(bits(v, C));
    auto Xs = mk<typename Tr<E>::Sample>(X);
    Seen seen;
    std::vector<uint32_t> menu = weighted ? std::vector<uint32_t>{1, 2, 5, 2147483647u} : std::vector<uint32_t>{1};
    long long combos = 1;
    for (int i = 0; i < C; ++i) if ((combos *= menu.size()) > (long long)tiered(300, 4096)) break;
    long long const total = weighted ? std::min<long long>(combos, tiered(300, 4096)) : 1;
    for (int thr : {1, 2, 3, 7, 1000, 2147483647})
    {
        Cfg c; c.clauses = 2 * (Tr<E>::cls ? per : C); c.thr = thr; c.weighted = weighted; c.jobs = jobs;
        auto st = fitted_state<E>(c, C, L);
        auto s = snap(st);
        CHECK(s.rows == 2 * C, "%d clause outputs, not %d", s.rows / 2, C);
        one_hot<E>(s);
        for (long long k = 0; k < total; ++k)
        {
            // all combinations when they are few, else a stride coprime with their number
            unsigned long long q = combos <= total ? k : k * 2654435761ull + k;
            for (size_t o = 0; o < s.w.size(); ++o) { s.w[o] = menu[q % menu.size()] - 1; q /= menu.size(); }
            put(st, s);
            seen.insert(std::to_string(thr) + s.key());
            E est(st);
            compare(est, Xs, X, expected<E>(s, X, L, thr), k % 64 == 0, fmt("L=%d thr=%d %s", L, thr, s.show().c_str()));
        }
    }
}

// sums beyond small counting types
template<class E> void many(int per, int jobs)
{
    int const L = 2;
    std::vector<ivec> X{{0, 0}, {0, 1}, {1, 0}, {1, 1}};
    auto Xs = mk<typename Tr<E>::Sample>(X);
    Seen seen;
    for (bool weighted : {false, true})
        for (int thr : {1, 100, per / 4 + 1, 2147483647})
        {
            Cfg c; c.clauses = 2 * per; c.thr = thr; c.weighted = weighted; c.jobs = jobs; c.ctype = "int8"; c.N = 2;
            auto st = fitted_state<E>(c, 2, L);
            auto s = snap(st);
            for (int mode = 0; mode < 4; ++mode)
            {
                for (int o = 0; o < s.rows / 2; ++o)
                {
                    int const f = mode == 0 ? 0 : mode == 1 ? o % 2 : mode == 2 ? (o / per + o) % 2 : (o % 5 < 2);
                    s.ta[2 * o] = {-1, -1}; s.ta[2 * o + 1] = {-1, -1};
                    s.ta[2 * o][f] = 0;
                }
                for (size_t o = 0; o < s.w.size(); ++o) s.w[o] = mode == 3 ? 2147483646u : (o % 7);
                put(st, s);
                seen.insert(std::to_string(thr) + "/" + std::to_string(mode));
                E est(st);
                compare(est, Xs, X, expected<E>(s, X, L, thr), true, fmt("%d clauses thr=%d mode=%d weighted=%d", s.rows / 2, thr, mode, (int)weighted));
            }
        }
}

// every batch of up to 4 out of 4 samples, with repetition
template<class E> void batches()
{
    int const L = 3;
    Cfg c; c.clauses = Tr<E>::cls ? 4 : 8; c.thr = 3;
    int const C = Tr<E>::cls ? 2 * L : 4;
    auto st = fitted_state<E>(c, C, L);
    auto s = snap(st);
    one_hot<E>(s);
    put(st, s);
    Seen seen;
    std::vector<ivec> P{bits(1, C), bits(Tr<E>::cls ? 4 : 3, C), bits(0, C), bits((1 << C) - 1, C)};
    E est(st);
    for (int n = 1; n <= 4; ++n)
        for (int v = 0; v < 1 << (2 * n); ++v)
        {
            std::vector<ivec> X; for (int i = 0; i < n; ++i) X.push_back(P[v >> (2 * i) & 3]);
            compare(est, mk<typename Tr<E>::Sample>(X), X, expected<E>(s, X, L, c.thr), true, "batch " + std::to_string(v));
            seen.insert(std::to_string(n) + "/" + std::to_string(v));
        }
    std::vector<ivec> X;
    for (int i = 0; i < 3000; ++i) X.push_back(P[(i * 7 + i / 5) % 4]);
    compare(est, mk<typename Tr<E>::Sample>(X), X, expected<E>(s, X, L, c.thr), false, "batch of 3000");
}

// reported accuracy
template<class E> void accuracy(int L)
{
    Cfg c; c.clauses = 4; c.thr = 5;
    int const C = 2 * L;
    auto st = fitted_state<E>(c, C, L);
    auto s = snap(st);
    one_hot<E>(s);
    put(st, s);
    E est(st);
    Seen seen;
    auto one = [&](std::vector<ivec> const & X, ivec const & y)
    {
        int right = 0;
        for (size_t i = 0; i < X.size(); ++i) right += ref::argmax(ref::scores(s, L, c.thr, X[i], 0)) == y[i];
        auto r = est.evaluate(mk<typename Tr<E>::Sample>(X), y);
        transitions(); traces();
        double const got = take(std::move(r), "evaluate"), want = (double)right / X.size();
        CHECK(std::fabs(got - want) < 2e-6, "%zu samples, %d right: accuracy %.9g", X.size(), right, got);
        if (right == 0 || right == (int)X.size()) CHECK(got == want, "%zu samples, %d right: accuracy %.9g", X.size(), right, got);
    };
    // every labelling of up to 4 samples, also with labels that do not exist
    std::vector<ivec> P{bits(0, C), bits(1, C), bits(4, C), bits(2, C), bits((1 << C) - 1, C)};
    ivec labels; for (int l = 0; l < L; ++l) labels.push_back(l);
    for (int l : {-1, L, 2147483647, -2147483647 - 1}) labels.push_back(l);
    int const A = labels.size() * P.size();
    for (int n = 1; n <= tiered(2, 3); ++n)
    {
        int total = 1; for (int i = 0; i < n; ++i) total *= A;
        for (int v = 0; v < total; ++v)
        {
            std::vector<ivec> X; ivec y; int q = v;
            for (int i = 0; i < n; ++i) { X.push_back(P[q % P.size()]); q /= P.size(); y.push_back(labels[q % labels.size()]); q /= labels.size(); }
            one(X, y);
            seen.insert(std::to_string(n) + "/" + std::to_string(v));
        }
    }
    // every number of right answers for longer batches
    for (int n : {3, 5, 7, 10, 16, 37, 100})
        for (int k = 0; k <= n; ++k)
        {
            std::vector<ivec> X; ivec y;
            for (int i = 0; i < n; ++i) { X.push_back(P[i % P.size()]); int w = ref::argmax(ref::scores(s, L, c.thr, X.back(), 0)); y.push_back(i * 7 % n < k ? w : (w + 1) % L); }
            one(X, y); states();
        }
    for (int k : {0, 1, 1234, 32767, 32768, 39999, 40000})
    {
        std::vector<ivec> X; ivec y;
        for (int i = 0; i < 40000; ++i) { X.push_back(P[i % P.size()]); int w = ref::argmax(ref::scores(s, L, c.thr, X.back(), 0)); y.push_back(i < k ? w : (w + 1) % L); }
        one(X, y); states();
    }
    // refused, not miscounted
    auto X1 = mk<typename Tr<E>::Sample>(std::vector<ivec>{P[0], P[1]});
    CHECK(!is_ok(est.evaluate(X1, ivec{0})) && !is_ok(est.evaluate(X1, ivec{0, 0, 0})), "evaluate accepts X and y of different lengths");
}

// as many labels as you like: clause 0 of label l is true for the code of l alone
template<class E> void many_labels(int L, bool negative)
{
    using S = typename Tr<E>::Sample;
    int F = 1; while ((1 << F) <= L) ++F;
    Cfg c; c.clauses = 4; c.thr = 1; c.N = 20;
    auto st = fitted_state<E>(c, F, L);
    auto const sh = ta_shape(st);
    for (int r = 0; r < sh.first; ++r) for (int i = 0; i < F; ++i) set_ta(st, r, i, -1);
    // of a label: clauses 0 and 1, rows 4 * l to 4 * l + 3; negative: its clause 1 is true for its code, those of the others have an empty one
    for (int l = 0; l < L; ++l) for (int i = 0; i < F; ++i) set_ta(st, 4 * l + 2 * negative + !(l >> i & 1), i, 0);
    E est(st);
    std::vector<int> at;
    for (int b = 0; b < F; ++b) for (int d = -2; d <= 2; ++d) at.push_back((1 << b) + d);
    for (int d = 0; d < 4; ++d) at.push_back(L - d);
    std::vector<ivec> P; ivec want, was;
    for (int l : at) if (l >= 0 && l < 1 << F) { P.push_back(bits(l, F)); was.push_back(l); want.push_back(negative ? l == 0 : l < L ? l : 0); }
    auto X = mk<S>(P);
    auto const all = take(est.predict(X), "predict");
    int right = 0;
    for (size_t i = 0; i < P.size(); ++i)
    {
        CHECK((int)all[i] == want[i], "%d labels, code %d: label %d instead of %d in a batch", L, was[i], (int)all[i], want[i]);
        int const one = take(est.predict(X[i]), "predict");
        CHECK(one == want[i], "%d labels, code %d: label %d instead of %d", L, was[i], one, want[i]);
        auto const sc = take(est.decision_function(X[i]), "decision_function");
        CHECK((int)sc.size() == L, "%d labels, %zu scores", L, sc.size());
        for (int l = 0; l < L; ++l) if ((int)sc[l] != (l == was[i] ? negative ? -1 : 1 : 0)) fail("%d labels, code %d: the score of label %d is %d", L, was[i], l, (int)sc[l]);
        right += want[i] == was[i];
        states(); transitions(3); traces();
    }
    auto const scs = take(est.decision_function(X), "decision_function");
    for (size_t i = 0; i < P.size(); ++i) CHECK(to_ivec(scs[i]) == to_ivec(take(est.decision_function(X[i]))), "%d labels, code %d: the scores of a batch are others", L, was[i]);
    double const acc = take(est.evaluate(X, T::label_vector_type(was.begin(), was.end())), "evaluate");
    CHECK(std::fabs(acc - (double)right / P.size()) < 2e-6, "%d labels: accuracy %.9g, %d of %zu right", L, acc, right, P.size());
    double const full = take(est.evaluate(X, T::label_vector_type(want.begin(), want.end())), "evaluate");
    CHECK(full == 1, "%d labels: accuracy %.9g for the predicted ones", L, full);
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string n = Tr<E>::name;
        for (int weighted = 0; weighted < 2; ++weighted)
            for (int jobs : {1, 2})
                if constexpr (Tr<E>::cls) for (auto [L, per] : {std::pair{2, 2}, {2, 4}, {3, 2}, {4, 2}, {5, 2}})
                    add(fmt("%s patterns L=%d per=%d weighted=%d jobs=%d", n.c_str(), L, per, weighted, jobs), [=, L = L, per = per]{ if (jobs > 1 && L > 3) return; patterns<E>(L, per, weighted, jobs); });
                else for (int per : {1, 2, 3, 4, 7, 8})
                    add(fmt("%s patterns C=%d weighted=%d jobs=%d", n.c_str(), per, weighted, jobs), [=]{ patterns<E>(0, per, weighted, jobs); });
        for (int per : {4, 126, 254, 256, 258, 512, 1000, 40000}) for (int jobs : {1, 3})
            if (per < 40000 || jobs == 1) add(fmt("%s many %d jobs=%d", n.c_str(), per, jobs), [=]{ many<E>(per, jobs); });
        add(n + " batches", []{ batches<E>(); });
        if constexpr (Tr<E>::cls) for (int L : {100, 127, 128, 129, 130, 255, 256, 257, 258, 300, 1025, 32767, 32768, 32769, 65535, 65536, 65537, 65538}) for (int neg = 0; neg < 2; ++neg) if (L < 2000 || neg == 0 || thorough())
            add(fmt("%s labels=%d%s", n.c_str(), L, neg ? " negative" : ""), [=]{ many_labels<E>(L, neg); });
        if constexpr (Tr<E>::cls) for (int L : {2, 3, 4}) add(fmt("%s accuracy L=%d", n.c_str(), L), [=]{ accuracy<E>(L); });
    });
}
