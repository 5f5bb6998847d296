// C26: what one epoch consists of.  Which sample is learned at which place of an epoch is read off the
// automata: granting a single feedback draw makes a single clause learn a single sample, and that
// clause then shows the sample (which literals moved) and the role of its label.  All outcomes of the
// draws that order the samples and choose the contrasted labels are enumerated.
#include "steps.hpp"
using namespace vf;
using namespace ref;

static constexpr int N = 2000;      // automata never saturate

// all clauses empty and deep (true while training): one feedback of any kind shows the whole sample
static Snap deep(Snap s) { for (auto & r : s.ta) for (auto & v : r) v = -N / 2; return s; }

struct Learned { int clause = -1; ivec x; bool typeI = false; };
// the one clause that changed, and what it was shown
static bool decode(Snap const & a, Snap const & b, Learned & l)
{
    l.clause = -1;
    int const F = a.cols;
    for (int o = 0; o < a.rows / 2; ++o)
    {
        if (a.ta[2 * o] == b.ta[2 * o] && a.ta[2 * o + 1] == b.ta[2 * o + 1]) continue;
        if (l.clause >= 0) fail("clauses %d and %d changed on one draw", l.clause, o);
        l.clause = o; l.x.assign(F, 0);
        bool down = false;
        for (int f = 0; f < F; ++f) down |= b.ta[2 * o][f] < a.ta[2 * o][f] || b.ta[2 * o + 1][f] < a.ta[2 * o + 1][f];
        l.typeI = down;
        for (int f = 0; f < F; ++f)
        {
            int const dp = b.ta[2 * o][f] - a.ta[2 * o][f], dn = b.ta[2 * o + 1][f] - a.ta[2 * o + 1][f];
            if (l.typeI) { CHECK((dp == 1 && dn == -1) || (dp == -1 && dn == 1), "clause %d feature %d moved by %d / %d", o, f, dp, dn); l.x[f] = dp == 1; }
            else { CHECK((dp == 1 && dn == 0) || (dp == 0 && dn == 1), "clause %d feature %d moved by %d / %d", o, f, dp, dn); l.x[f] = dn == 1; }
        }
    }
    return l.clause >= 0;
}

template<class E> struct Epoch
{
    using State = typename Tr<E>::State; using S = typename Tr<E>::Sample;
    Cfg cfg; int F, L; State st; std::vector<ivec> X; ivec y; std::vector<S> sx; Snap from;
    static Cfg prep(Cfg c) { c.N = N; c.s = 1.f; c.boost = true; c.thr = 1000; return c; }
    Epoch(Cfg c, int F, int L, std::vector<ivec> X, ivec y) : cfg(prep(c)), F(F), L(L), st(fitted_state<E>(cfg, F, L)), X(X), y(y), sx(mk<S>(X)), from(deep(snap(st))) { put(st, from); }

    State go(std::vector<unsigned> const & iv, unsigned rot, std::vector<float> const & fv, float rest, unsigned epochs)
    {
        load_igen(st, iv, rot); load_fgen(st, fv, rest);
        E e(st);
        ok(do_pfit(e, sx, y, L, epochs), "partial_fit");
        auto p = e.clone_state();
        return *p;
    }
};

// order and contrasted labels under given draws, by probing every feedback draw
template<class E> bool order_of(Epoch<E> & P, std::vector<unsigned> const & iv, unsigned rot, unsigned epochs, ivec & order, ivec & contrast)
{
    int const n = (int)P.X.size(), per = P.cfg.clauses / 2, block = 2 * per;
    order.clear(); contrast.clear();
    std::vector<int> used(n, 0);
    for (int k = 0; k < n * (int)epochs; ++k)
    {
        if (k % n == 0) used.assign(n, 0);
        std::set<int> clauses; ivec x; int target = -1, opp = -1;
        for (int j = 0; j < block; ++j)
        {
            std::vector<float> fv(n * block * epochs, NO); fv[k * block + j] = YES;
            auto after = P.go(iv, rot, fv, NO, epochs);
            Learned l;
            CHECK(decode(P.from, snap(after), l), "draw %d of place %d of the epoch has no effect", j, k % n);
            traces();
            CHECK(clauses.insert(l.clause).second, "place %d: clause %d learns twice", k % n, l.clause);
            if (x.empty()) x = l.x;
            CHECK(x == l.x, "place %d: clauses are shown different samples, %s and %s", k % n, show(x).c_str(), show(l.x).c_str());
            int const label = l.clause / per; bool const even = l.clause % per % 2 == 0;
            int & role = l.typeI == even ? target : opp;
            CHECK(role == -1 || role == label, "place %d: labels %d and %d in the same role", k % n, role, label);
            role = label;
        }
        CHECK((int)clauses.size() == block && target >= 0 && opp >= 0 && target != opp, "place %d: target %d contrasted with %d", k % n, target, opp);
        int id = -1;
        for (int i = 0; i < n; ++i) if (!used[i] && P.X[i] == x && P.y[i] == target) { id = i; break; }
        CHECK(id >= 0, "place %d of the epoch: sample %s is learned as label %d, which is no pair of the data or one already used", k % n, show(x).c_str(), target);
        used[id] = 1;
        order.push_back(id); contrast.push_back(opp);
    }
    return true;
}

// even spread over the 32-bit range: hits every outcome of a draw from a range that divides m
static std::vector<unsigned> spread(unsigned m) { std::vector<unsigned> r; for (unsigned q = 0; q < m; ++q) r.push_back((unsigned)(((2ull * q + 1) << 32) / (2ull * m))); return r; }

template<class E> void orders(Cfg cfg, int F, int L, std::vector<ivec> X, ivec y, unsigned m, unsigned epochs, int part, int parts)
{
    Epoch<E> P(cfg, F, L, X, y);
    int const n = (int)X.size();
    static std::set<ivec> seen_orders; Seen seen;
    std::set<ivec> got; std::vector<std::set<int>> opps(n);
    auto A = spread(m);
    int const D = n + 3;
    long long c = 0;
    auto one = [&](std::vector<unsigned> const & iv)
    {
        if (c++ % parts != part) return;
        ivec o, k;
        order_of(P, iv, 5, epochs, o, k);
        for (size_t i = 0; i < o.size(); ++i) opps[o[i]].insert(k[i]);
        got.insert(ivec(o.begin(), o.begin() + n));
        seen.insert(show(o) + "/" + show(k));
    };
    // every pair of draws takes every value; the others are fixed
    for (int a = 0; a < D; ++a)
        for (int b = a + 1; b < D; ++b)
        {
            if (n <= 3 && b > a + 1) break;
            for (auto u : A) for (auto v : A)
            {
                std::vector<unsigned> iv(D, 0x80000000u); iv[a] = u; iv[b] = v;
                one(iv);
            }
        }
    if (L > 2)
        for (int a = 0; a < D; ++a) for (unsigned r = 0; r < 2u * L; ++r) { std::vector<unsigned> iv(D, 0x80000000u); iv[a] = r; one(iv); }
    long long fact = 1; for (int i = 2; i <= n; ++i) fact *= i;
    if (parts == 1)
    {
        CHECK((long long)got.size() == fact, "only %zu of the %lld orders of %d samples occur", got.size(), fact, n);
        for (int i = 0; i < n; ++i) CHECK((int)opps[i].size() == L - 1 && !opps[i].count(y[i]), "sample %d with label %d of %d is contrasted with %zu labels only", i, y[i], L, opps[i].size());
    }
    count("orders seen", got.size());
}

// sums over whole epochs of all sizes: with every feedback granted the moves add up
template<class E> void sums(Cfg cfg, int n, int L, unsigned epochs)
{
    std::vector<ivec> X; ivec y;
    int const F = n;
    for (int i = 0; i < n; ++i) { ivec x(F, 0); x[i] = 1; X.push_back(x); y.push_back((i * i + i / 3) % L); }
    if constexpr (Tr<E>::cls)
    {
        Epoch<E> P(cfg, F, L, X, y);
        note("%s %d samples, %d labels, %u epochs", Tr<E>::name, n, L, epochs);
        std::vector<float> none;
        auto after = snap(P.go({}, 77u * n, none, YES, epochs));
        int const per = cfg.clauses / 2;
        std::vector<int> contrasted(n, 0);
        for (int l = 0; l < L; ++l)
        {
            int const o = l * per;      // an even clause: Type I as target, Type II as contrasted label
            int B = 0, Aa = 0;
            for (int i = 0; i < n; ++i) Aa += y[i] == l ? (int)epochs : 0;
            auto d = [&](int r, int f){ return after.ta[2 * o + r][f] - P.from.ta[2 * o + r][f]; };
            B = d(0, 0) + d(1, 0);
            int sumb = 0;
            for (int i = 0; i < n; ++i)
            {
                CHECK(d(0, i) + d(1, i) == B, "label %d: literals %d and 0 moved a different number of times", l, i);
                int const a = y[i] == l ? (int)epochs : 0;
                int const b = d(1, i) + 2 * a - Aa;
                CHECK(b >= 0 && b <= (y[i] == l ? 0 : (int)epochs), "sample %d (label %d) is contrasted %d times with label %d in %u epochs", i, y[i], b, l, epochs);
                contrasted[i] += b; sumb += b;
            }
            CHECK(sumb == B, "label %d: %d contrasts, %d feedbacks", l, sumb, B);
            // all clauses of the same sign alike, the odd ones the other way round
            for (int k = 2; k < per; k += 2) CHECK(after.ta[2 * (o + k)] == after.ta[2 * o], "clauses of one label learned different samples");
            int dsum = 0;
            for (int i = 0; i < n; ++i) dsum += after.ta[2 * (o + 1) + 0][i] + after.ta[2 * (o + 1) + 1][i] - 2 * -(N / 2);
            CHECK(dsum == n * Aa, "label %d: %d Type II feedbacks on %d features instead of %d", l, dsum, n, n * Aa);
        }
        for (int i = 0; i < n; ++i) CHECK(contrasted[i] == (int)epochs, "sample %d of %d is learned %d times in %u epochs", i, n, contrasted[i], epochs);
    }
    else
    {
        // one clause, always true while training: response 0 gives Type II, 2 Type I, 1 nothing
        Cfg c = cfg; c.clauses = 2;
        auto cc = Epoch<E>::prep(c); cc.thr = 2; cc.loss = "MAE";
        for (int i = 0; i < n; ++i) y[i] = (i * 7 + i / 4) % 3;
        auto st = fitted_state<E>(cc, F, 2);
        auto from = deep(snap(st)); put(st, from);
        load_igen(st, {}, 77u * n); load_fgen(st, {}, YES);
        E e(st);
        ok(do_pfit(e, mk<typename Tr<E>::Sample>(X), y, 2, epochs), "partial_fit");
        auto p = e.clone_state(); auto after = snap(*p);
        for (int f = 0; f < n; ++f)
        {
            int wp = 0, wn = 0;
            for (int i = 0; i < n; ++i)
            {
                if (y[i] == 2) { wp += X[i][f] ? 1 : -1; wn += X[i][f] ? -1 : 1; }
                if (y[i] == 0) { wp += !X[i][f]; wn += X[i][f]; }
            }
            CHECK(after.ta[0][f] - from.ta[0][f] == wp * (int)epochs && after.ta[1][f] - from.ta[1][f] == wn * (int)epochs, "%d samples, %u epochs: literals of feature %d moved by %d / %d instead of %d / %d", n, epochs, f, after.ta[0][f] - from.ta[0][f], after.ta[1][f] - from.ta[1][f], wp * (int)epochs, wn * (int)epochs);
        }
    }
    transitions(); traces(); states();
}

// crowds of samples, many epochs: feedback is certain all along, each sample leaves its mark on the features of
// its two digits
template<class E> void crowd(int n, unsigned epochs)
{
    int B = 1; while (B * B < n) ++B;
    int const F = 2 * B, deep_ = 1 << 30;
    std::vector<ivec> X;
    for (int i = 0; i < n; ++i) { ivec x(F, 0); x[i % B] = x[B + i / B] = 1; X.push_back(x); }
    Cfg c; c.clauses = Tr<E>::cls ? 4 : 2; c.thr = 1; c.s = 1e9f; c.N = 2147483647; c.loss = "MAE"; c.jobs = n % 2 ? 1 : 2;
    auto st = fitted_state<E>(c, F, 2);
    auto from = snap(st);
    for (int r = 0; r < from.rows; ++r) for (int f = 0; f < F; ++f) from.ta[r][f] = -deep_;
    // label 0: its even clause is always false, its odd one always true; label 1: the other way round
    std::vector<int> watched{0};
    if (Tr<E>::cls) { watched = {1, 2}; for (int o : {0, 3}) from.ta[2 * o][0] = from.ta[2 * o + 1][0] = deep_; }
    put(st, from);
    note("%s: %d samples, %u epochs", Tr<E>::name, n, epochs);
    E e(st);
    ok(do_pfit(e, mk<typename Tr<E>::Sample>(X), ivec(n, 0), 2, epochs), "partial_fit");
    auto after = snap(*e.clone_state());
    std::vector<long long> ones(F, 0);
    for (auto & x : X) for (int f = 0; f < F; ++f) ones[f] += x[f];
    for (int o : watched)
        for (int f = 0; f < F; ++f)
        {
            long long const p = after.ta[2 * o][f] - (long long)from.ta[2 * o][f], q = after.ta[2 * o + 1][f] - (long long)from.ta[2 * o + 1][f];
            CHECK(p == (n - ones[f]) * epochs && q == ones[f] * epochs, "%d samples, %u epochs: %lld samples without feature %d were used %lld times, %lld with it %lld times", n, epochs, n - ones[f], f, p, ones[f], q);
        }
    transitions(); traces(); states(); count("samples in crowds", n);
}

// regressors: one clause, one feature, threshold 1: each step is a function of state and pair
template<class E> void regressor_orders(int lo, int hi, bool weighted)
{
    Cfg c; c.clauses = 2; c.N = 3; c.s = 1.f; c.thr = 1; c.loss = "MAE"; c.weighted = weighted; c.maxw = 5;
    Stepper<E> S(c, 1, 2);
    using Sm = typename Tr<E>::Sample;
    Seen seen;
    size_t most = 0;
    for (int code = lo; code < hi; ++code)       // which pairs the data consist of: 4 samples out of the 4 pairs, with repetition
    {
        std::vector<ivec> X; ivec y;
        for (int i = 0; i < 4; ++i) { int q = code >> 2 * i & 3; X.push_back({q & 1}); y.push_back(q >> 1); }
        if (!std::is_sorted(y.begin(), y.end())) continue;
        auto sx = mk<Sm>(X);
        for (int p = -3; p < 3; ++p)
            for (int q = -3; q < 3; ++q)
            {
                Snap s = S.base();
                ref::set(s, 0, Cl{{p}, {q}, weighted ? 2 : 1});
                seen.insert(s.key());
                // all orders, by single steps
                std::set<std::string> want; ivec perm{0, 1, 2, 3};
                do
                {
                    Snap t = s;
                    for (int i : perm) t = S.run(t, X[i], y[i], {}, 0, {}, YES);
                    want.insert(t.key());
                } while (std::next_permutation(perm.begin(), perm.end()));
                std::set<std::string> got;
                auto A = spread(12);
                for (auto u : A) for (auto v : A) for (auto w : {0u, 0x80000000u, 0xffffffffu})
                {
                    typename Tr<E>::State st(S.st);
                    put(st, s);
                    load_igen(st, {u, v, w}, 0); load_fgen(st, {}, YES);
                    E e(st);
                    ok(do_pfit(e, sx, y, 2, 1), "partial_fit");
                    auto r = e.clone_state(); auto t = snap(*r);
                    CHECK(want.count(t.key()), "pairs %d from %s: %s is the result of no order of the samples", code, s.show().c_str(), t.show().c_str());
                    got.insert(t.key()); traces();
                }
                CHECK(got == want, "pairs %d from %s: %zu of %zu results occur", code, s.show().c_str(), got.size(), want.size());
                most = std::max(most, want.size());
            }
    }
    count("results of different orders", most);
}

// any number of labels: the label contrasted gets its sure feedback (its score is T), which strengthens a literal of its clause 0 by one;
// the label trained gets none (its score is T, too)
template<class E> void contrasted(int L, int y, bool calls)
{
    using S = typename Tr<E>::Sample;
    Cfg c; c.clauses = 4; c.thr = 1; c.N = 30000; c.s = 1000.f;
    auto st = fitted_state<E>(c, 1, L);
    for (int l = 0; l < L; ++l)
    {
        set_ta(st, 4 * l, 0, -30000); set_ta(st, 4 * l + 1, 0, -30000);
        set_ta(st, 4 * l + 2, 0, 20000); set_ta(st, 4 * l + 3, 0, -30000);
    }
    E e(st);
    int const rounds = L < 10 ? 60 : 25;
    auto X = std::vector<S>(L, mk<S>(ivec{0})); ivec ys(L, y);
    if (calls) for (int r = 0; r < rounds; ++r) ok(do_pfit(e, X, ys, L, 1), "partial_fit");
    else ok(do_pfit(e, X, ys, L, rounds), "partial_fit");
    auto const p = e.clone_state();
    long total = 0;
    for (int l = 0; l < L; ++l)
    {
        int const hits = get_ta(*p, 4 * l, 0) + 30000;
        total += hits;
        if (l == y) { CHECK(hits == 0, "%d labels: label %d is contrasted with itself", L, y); CHECK(get_ta(*p, 4 * l + 2, 0) == 20000, "%d labels: label %d is answered rightly, and trained", L, y); }
        else CHECK(hits > 0, "%d labels: label %d is never contrasted with label %d in %ld steps", L, l, y, (long)rounds * L);
        states();
    }
    CHECK(total == (long)rounds * L, "%d labels: %ld labels are contrasted in %ld steps", L, total, (long)rounds * L);
    transitions(total); traces();
}

void setup()
{
    for_classifiers([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        for (int L : {2, 3, 4, 5, 8, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 130, 255, 256, 257, 258, 300, 1000, 2048, 2049, 32767, 32768, 32769, 65535, 65536, 65537, 65538})
        {
            if (L > 3000 && !thorough() && L != 32769 && L != 65537) continue;
            std::set<int> ys{0, L - 1};
            if (L > 3000 && !thorough()) ys = {L == 65537 ? L - 1 : 0};
            if (L < 3000) for (int y : {1, 2, L / 2, 127, 128, 255, 256, L - 2}) if (y < L) ys.insert(y);
            for (int y : ys) for (int calls = 0; calls < (L < 3000 ? 2 : 1); ++calls)
                add(fmt("%s/contrasted labels=%d y=%d calls=%d", Tr<E>::name, L, y, calls), [=]{ contrasted<E>(L, y, calls); });
        }
    });
    for_classifiers([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string n = Tr<E>::name;
        Cfg c; c.clauses = 4;
        auto data = [](int k, int L, bool dup)
        {
            std::vector<ivec> X; ivec y;
            for (int i = 0; i < k; ++i) { int q = dup && i ? i - 1 : i; X.push_back(bits(q * 3 % 8, 3)); y.push_back((q + q / 2) % L); }
            return std::make_pair(X, y);
        };
        for (int k = 1; k <= tiered(4, 5); ++k)
            for (int L : {2, 3})
            {
                auto [X, y] = data(k, L, false);
                add(n + fmt("/orders of %d samples, %d labels", k, L), [=, X = X, y = y]{ orders<E>(c, 3, L, X, y, k == 5 ? 20 : 12, 1, 0, 1); });
            }
        { auto [X, y] = data(3, 5, false); add(n + "/orders of 3 samples, 5 labels", [=, X = X, y = y]{ orders<E>(c, 3, 5, X, y, 12, 1, 0, 1); }); }
        { auto [X, y] = data(3, 3, false); Cfg d = c; d.jobs = 2; d.clauses = 8; add(n + "/orders of 3 samples, two jobs", [=, X = X, y = y]{ orders<E>(d, 3, 3, X, y, 6, 1, 0, 1); }); }
        { auto [X, y] = data(3, 3, false); add(n + "/three epochs", [=, X = X, y = y]{ orders<E>(c, 3, 3, X, y, 6, 3, 0, 1); }); }
        { auto [X, y] = data(4, 2, true); add(n + "/repeated pairs", [=, X = X, y = y]{ orders<E>(c, 3, 2, X, y, 4, 2, 0, 64); }); }
    });
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        for (auto [n, ep] : std::vector<std::pair<int, unsigned>>{{100, 1}, {127, 3}, {128, 1}, {129, 2}, {255, 2}, {256, 1}, {257, 1}, {512, 2}, {513, 1}, {1000, 3}, {1025, 1}, {4096, 1}, {4097, 2}, {10000, 1}, {32767, 1}, {32768, 1}, {32769, 1}, {65535, 1}, {65536, 1}, {65537, 2}, {70000, 1}, {100003, 1},
                {1, 255}, {2, 256}, {3, 257}, {1, 1000}, {2, 1025}, {3, 4097}, {1, 32769}, {2, 65537}, {3, 100000}, {20, 5000}})
            add(fmt("%s/%d samples, %u epochs", Tr<E>::name, n, ep), [=, n = n, ep = ep]{ crowd<E>(n, ep); });
        for (int L : {2, 3, 7})
        {
            if (!Tr<E>::cls && L > 2) continue;
            for (unsigned ep : {1u, 2u, 5u})
                add(fmt("%s/sums labels=%d epochs=%u", Tr<E>::name, L, ep), [=]{ for (int k = 1; k <= tiered(70, 200); ++k) { Cfg c; c.clauses = k % 2 ? 4 : 12; c.jobs = k % 3 ? 1 : 2; sums<E>(c, k, L, ep); } });
        }
    });
    for_regressors([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        for (int k = 0; k < 256; k += 32)
            add(fmt("%s/orders %d", Tr<E>::name, k), [=]{ regressor_orders<E>(k, k + 32, k % 64 == 0); });
    });
}
