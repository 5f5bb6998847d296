// C12: exactly the valid inputs are accepted: exhaustive enumeration of small inputs (numbers of rows
// and targets, row lengths, targets), of every value a feature can hold at every position, and of
// every unused storage bit, against the acceptance predicate.
#include "life.hpp"
using namespace vf;

static int const BIG = std::numeric_limits<int>::max(), LOW = std::numeric_limits<int>::min();

// what the documentation accepts; limit: highest label / response, -1: open
static bool valid_training(std::vector<ivec> const & X, ivec const & y, int F, int limit)
{
    if (X.empty() || y.empty() || X.size() != y.size()) return false;
    for (auto & r : X) { if (r.size() != X[0].size()) return false; for (int v : r) if (v != 0 && v != 1) return false; }
    if (F >= 0 && (int)X[0].size() != F) return false;
    for (int v : y) if (v < 0 || (limit >= 0 && v > limit)) return false;
    return true;
}
static bool valid_query(std::vector<ivec> const & X, int F)
{
    if (X.empty()) return false;
    for (auto & r : X) { if ((int)r.size() != F) return false; for (int v : r) if (v != 0 && v != 1) return false; }
    return true;
}
// two labels to tell apart
static bool two_labels(ivec const & y, int max_labels) { long long m = 0; for (int v : y) m = std::max<long long>(m, v + 1ll); return std::max<long long>(m, max_labels) >= 2; }

template<class E> struct Probe
{
    using State = typename Tr<E>::State; using S = typename Tr<E>::Sample;
    Cfg c; State un, fi; int F, limit; bool const cls = Tr<E>::cls;
    Seen seen; std::shared_ptr<E> asked;
    Probe(Cfg const & c_, int F, int L) : c(c_), un(*make<E>(c).clone_state()), fi(fitted_state<E>(c, F, L)), F(F), limit(Tr<E>::cls ? L - 1 : c.thr) { }

    void answer(char const * what, std::string const & in, bool got, bool want, int st)
    {
        traces();
        seen.insert(std::string(what) + in);
        CHECK(got == want, "%s of %s is %s (status %d)", what, in.c_str(), got ? "accepted" : "refused", st);
        if (!got) CHECK(st == T::S_VALUE_ERROR, "%s of %s: status %d", what, in.c_str(), st);
    }
    void training(std::vector<ivec> const & X, std::vector<S> const & sx, ivec const & y, int L, bool padding_ok = true)
    {
        std::string in = fmt("%zu rows, F=%d, y=(%s), max_labels=%d%s", X.size(), F, show(y).c_str(), L, padding_ok ? "" : ", padding set");
        if (F < 8) for (auto & r : X) in += " [" + show(r) + "]"; else if (X.size()) { uint64_t h = 7; for (auto & r : X) h = mix(h, r.data(), 4 * r.size()); in += fmt(" #%llx", (unsigned long long)h); }
        note("%s", in.c_str());
        bool const open = valid_training(X, y, -1, cls ? -1 : limit) && padding_ok && (!cls || two_labels(y, L));
        bool const shaped = valid_training(X, y, F, limit) && padding_ok;
        for (unsigned ep : {0u, 1u})
        {
            { E e(un); auto s = do_fit(e, sx, y, L, ep); answer("fit, unfitted", in, s.first == T::S_OK, open, s.first); }
            { E e(fi); auto s = do_fit(e, sx, y, L, ep); answer("fit, fitted", in, s.first == T::S_OK, open, s.first); }
            { E e(un); auto s = do_pfit(e, sx, y, L, ep); answer("partial_fit, unfitted", in, s.first == T::S_OK, open, s.first); }
            { E e(fi); auto s = do_pfit(e, sx, y, L, ep); answer("partial_fit, fitted", in, s.first == T::S_OK, shaped, s.first); }
        }
    }
    void query(std::vector<ivec> const & X, std::vector<S> const & sx, ivec const & y, bool padding_ok = true)
    {
        std::string in = fmt("%zu rows%s, F=%d", X.size(), padding_ok ? "" : ", padding set", F);
        if (F < 8) for (auto & r : X) in += " [" + show(r) + "]"; else if (X.size()) { uint64_t h = 7; for (auto & r : X) h = mix(h, r.data(), 4 * r.size()); in += fmt(" #%llx", (unsigned long long)h); }
        note("%s", in.c_str());
        if (!asked) asked.reset(new E(fi));
        E & e = *asked;
        bool const want = valid_query(X, F) && padding_ok;
        transitions();
        { auto r = e.predict(sx); answer("predict", in, !r.isLeft, want, status(r)); if (want) CHECK(r.rightValue.size() == X.size(), "predict of %s: %zu answers", in.c_str(), r.rightValue.size()); }
        if (sx.size() == 1) { auto r = e.predict(sx[0]); answer("predict one", in, !r.isLeft, want, status(r)); }
        if constexpr (Tr<E>::cls)
        {
            { auto r = e.decision_function(sx); answer("decision_function", in, !r.isLeft, want, status(r)); if (want) CHECK(r.rightValue.size() == X.size(), "decision_function of %s: %zu answers", in.c_str(), r.rightValue.size()); }
            if (sx.size() == 1) { auto r = e.decision_function(sx[0]); answer("decision_function one", in, !r.isLeft, want, status(r)); }
            auto r = e.evaluate(sx, y);
            answer("evaluate", in + " y=(" + show(y) + ")", !r.isLeft, want && y.size() == X.size(), status(r));
            transitions(3);
        }
        E u(un);
        CHECK(status(u.predict(sx)) == T::S_NOT_FITTED_ERROR, "predict of %s by an unfitted estimator: status %d", in.c_str(), (int)status(u.predict(sx)));
        if constexpr (Tr<E>::cls)
            CHECK(status(u.decision_function(sx)) == T::S_NOT_FITTED_ERROR && status(u.evaluate(sx, y)) == T::S_NOT_FITTED_ERROR, "evaluation of %s by an unfitted estimator", in.c_str());
    }
};

static Cfg base(bool cls) { Cfg c; c.clauses = 4; c.thr = 3; c.N = 3; (void)cls; return c; }

// every combination of numbers of rows and targets, row lengths and targets
template<class E> void shapes(int nrows)
{
    bool const cls = Tr<E>::cls;
    using S = typename Tr<E>::Sample;
    int const F = 2, L = 3;
    Probe<E> p(base(cls), F, L);
    std::vector<int> const lens{0, 1, 2, 3};
    std::vector<int> const tv = tiered<ivec>({-1, 0, 1, 3, 4}, {LOW, -1, 0, 1, 2, 3, 4});
    std::function<void(std::vector<ivec>)> rows = [&](std::vector<ivec> X)
    {
        if ((int)X.size() == nrows)
        {
            auto sx = mk<S>(X);
            // all target vectors of all lengths up to one more than the rows
            std::function<void(ivec)> targets = [&](ivec y)
            {
                for (int ml : cls ? ivec{-1, 0, 1, 2, 3} : ivec{0})
                {
                    if (ml < 2 && ml != 1 && y.size() > 2) continue;
                    p.training(X, sx, y, ml);
                }
                if (y.size() < 2) p.query(X, sx, y); else if (y[0] == 0 && y[1] == 0) p.query(X, sx, y);
                if ((int)y.size() < std::min(nrows + 1, 3)) for (int v : tv) { auto z = y; z.push_back(v); targets(z); }
            };
            targets({});
            return;
        }
        for (int l : lens) { auto Y = X; Y.push_back(ivec(l, (int)Y.size() % 2)); rows(Y); }
    };
    rows({});
}

// every value of a feature at every position
template<class E> void values(int F)
{
    bool const cls = Tr<E>::cls; using S = typename Tr<E>::Sample;
    if constexpr (!Tr<E>::bit)
    {
        Probe<E> p(base(cls), F, 2);
        for (int row = 0; row < 2; ++row)
            for (int f = 0; f < F; ++f)
            {
                if (F > 40 && f > 2 && f < F - 3 && f % 16 > 1 && f % 16 < 15) continue;
                for (int v = -128; v < 128; ++v)
                {
                    if (F > 20 && v % 16 != 0 && std::abs(v) > 3 && v != 127) continue;
                    std::vector<ivec> X{ivec(F, 0), ivec(F, 1)}; X[row][f] = v;
                    auto sx = mk<S>(X);
                    p.training(X, sx, {0, 1}, 2); p.query(X, sx, {0, 1});
                    if (row == 0) { std::vector<ivec> O{X[0]}; p.query(O, mk<S>(O), {0}); }
                }
            }
    }
    else
    {
        Probe<E> p(base(cls), F, 2);
        std::vector<ivec> X{ivec(F, 0), ivec(F, 1)};
        auto sx = mk<S>(X);
        p.training(X, sx, {0, 1}, 2); p.query(X, sx, {0, 1});
        unsigned const nbits = 64 * sx[0].m_vector.size();
        for (int row = 0; row < 2; ++row)
            for (unsigned b = F; b < nbits; ++b)
            {
                auto bad = sx; bad[row].m_vector[b / 64] |= 1ull << b % 64;
                if (thorough() || b < (unsigned)F + 3 || b % 64 < 2 || b % 64 == 63) p.training(X, bad, {0, 1}, 2, false);
                p.query(X, bad, {0, 1}, false);
                if (row == 0) p.query({X[0]}, {bad[0]}, {0}, false);
            }
        // rows that own more storage than they need
        for (int spare : {1, 2, 3, 9})
        {
            auto roomy = sx;
            for (auto & r : roomy) { auto v = r.m_vector; v.resize(v.size() + spare, 0); r = S((size_t)F, std::move(v)); }
            p.training(X, roomy, {0, 1}, 2); p.query(X, roomy, {0, 1}); p.query({X[0]}, {roomy[0]}, {0});
            auto mixed = sx; mixed[1] = roomy[1]; p.training(X, mixed, {0, 1}, 2); p.query(X, mixed, {0, 1});
            for (int row = 0; row < 2; ++row)
                for (unsigned b = F; b < nbits + 64 * spare; ++b)
                {
                    if (b % 64 > 1 && b % 64 < 62 && b % 64 != 31 && b % 64 != 32 && b != (unsigned)F) continue;
                    auto bad = roomy; bad[row].m_vector[b / 64] |= 1ull << b % 64;
                    if (spare < 3) p.training(X, bad, {0, 1}, 2, false);
                    p.query(X, bad, {0, 1}, false);
                    if (row == 0) p.query({X[0]}, {bad[0]}, {0}, false);
                }
        }
        // ... and every feature bit is a feature
        for (int f = 0; f < F; ++f) { std::vector<ivec> Y{ivec(F, 0)}; Y[0][f] = 1; p.query(Y, mk<S>(Y), {0}); }
    }
}

// one thing wrong somewhere in large data
template<class E> void one_wrong(int F, int n)
{
    bool const cls = Tr<E>::cls; using S = typename Tr<E>::Sample;
    Cfg c = base(cls);
    Probe<E> p(c, F, 3);
    E un(p.un), fi(p.fi);
    std::vector<ivec> X; ivec y;
    for (int i = 0; i < n; ++i) { ivec x(F); for (int f = 0; f < F; ++f) x[f] = (i + f / 3) % 2; X.push_back(x); y.push_back(i % 3); }
    auto sx = mk<S>(X);
    auto judge = [&](std::string const & what, bool trains, bool asks, bool eval = true)
    {
        auto in = fmt("%d rows of %d features, %s", n, F, what.c_str());
        note("%s", in.c_str());
        if (trains)
        {
            // acceptable data would change the estimator: copies are used for them
            for (int k = 0; k < 4; ++k)
            {
                E & e = k % 2 ? fi : un;
                auto s = k < 2 ? do_fit(e, sx, y, 3, 1) : do_pfit(e, sx, y, 3, 1);
                p.answer(k < 2 ? "fit" : "partial_fit", in, s.first == T::S_OK, false, s.first);
                transitions();
            }
        }
        if (asks)
        {
            auto r = fi.predict(sx); p.answer("predict", in, !r.isLeft, false, status(r)); transitions();
            if constexpr (cls) { auto d = fi.decision_function(sx); p.answer("decision_function", in, !d.isLeft, false, status(d)); transitions(); }
        }
        if constexpr (cls) if (eval) { auto r = fi.evaluate(sx, y); p.answer("evaluate", in, !r.isLeft, false, status(r)); transitions(); }
    };
    auto places = [](int n, int step)
    {
        std::set<int> r;
        for (int i = 0; i < n; i += i < 40 || n - i < 40 ? 1 : step) r.insert(i);
        for (int b = 4; b < 20; ++b) for (int d = -1; d < 2; ++d) if ((1 << b) + d < n) r.insert((1 << b) + d);
        for (int d : {1, 2, 3}) if (n >= d) r.insert(n - d);
        return r;
    };
    for (int f : places(F, F > 300 && !thorough() ? 7 : 1)) for (int i : std::set<int>{0, n / 2, n - 1})
    {
        if (F > 1000 && i && f % 3) continue;
        if constexpr (!Tr<E>::bit)
        {
            auto const was = sx[i][f];
            for (int v : {2, -1}) { sx[i][f] = v; judge(fmt("feature %d of row %d is %d", f, i, v), f < 10 || f > F - 10 || f % 8 == 7, true); }
            sx[i][f] = was;
        }
    }
    for (int i : places(n, n > 300 ? n / 37 : 1))
    {
        if constexpr (!Tr<E>::bit) { auto const was = sx[i][F / 2]; sx[i][F / 2] = 3; judge(fmt("a feature of row %d is 3", i), true, true); sx[i][F / 2] = was; }
        else if (F % 64) { sx[i].m_vector.back() |= 1ull << 63; judge(fmt("storage bit 63 of row %d is set", i), true, true); sx[i].m_vector.back() &= ~(1ull << 63); }
        for (int G : {F - 1, F + 1, 0})
        {
            auto const was = sx[i]; ivec x(G, 1); sx[i] = mk<S>(x);
            judge(fmt("row %d has %d features", i, G), n > 1, true);
            sx[i] = was;
        }
        for (int v : {-1, LOW, 4, 70000})
        {
            int const was = y[i]; y[i] = v;
            // other labels are refused by partial_fit of a fitted classifier only
            if (v < 0 || !cls) judge(fmt("target %d is %d", i, v), true, false, false);
            else { auto s = do_pfit(fi, sx, y, 3, 1); p.answer("partial_fit", fmt("%d rows, label %d is %d", n, i, v), s.first == T::S_OK, false, s.first); transitions(); }
            y[i] = was;
        }
    }
    y.push_back(0); judge("one target too many", true, false); y.pop_back();
    y.pop_back(); judge("one target too few", true, false); y.push_back((n - 1) % 3);
    auto const last = sx.back(); sx.pop_back(); judge("one row too few", true, false); sx.push_back(last);
    // and all right
    for (unsigned ep : {0u, 1u})
    {
        auto in = fmt("%d rows of %d features", n, F);
        { E e(p.un); auto s = do_fit(e, sx, y, 3, ep); p.answer("fit", in, s.first == T::S_OK, true, s.first); }
        { E e(p.fi); auto s = do_fit(e, sx, y, 3, ep); p.answer("fit", in, s.first == T::S_OK, true, s.first); }
        { E e(p.un); auto s = do_pfit(e, sx, y, 3, ep); p.answer("partial_fit", in, s.first == T::S_OK, true, s.first); }
        { E e(p.fi); auto s = do_pfit(e, sx, y, 3, ep); p.answer("partial_fit", in, s.first == T::S_OK, true, s.first); }
        { auto r = fi.predict(sx); p.answer("predict", in, !r.isLeft, true, status(r)); if (!r.isLeft) CHECK((int)r.rightValue.size() == n, "predict: %zu answers for %d rows", (size_t)r.rightValue.size(), n); }
        if constexpr (cls) { auto r = fi.evaluate(sx, y); p.answer("evaluate", in, !r.isLeft, true, status(r)); }
        transitions(6);
    }
}

// targets around every limit, at every position
template<class E> void targets()
{
    bool const cls = Tr<E>::cls; using S = typename Tr<E>::Sample;
    for (int L : {2, 3, 5})
    {
        Cfg c = base(cls); c.thr = L;
        Probe<E> p(c, 2, L);
        std::vector<ivec> X{{0, 0}, {0, 1}, {1, 1}};
        auto sx = mk<S>(X);
        std::vector<int> const tv{LOW, LOW + 1, -2, -1, 0, 1, L - 1, L, L + 1, BIG - 1, BIG};
        for (int a : tv) for (int b : tv) for (int d : tv)
        {
            ivec y{a, b, d};
            bool const huge = std::max({a, b, d}) > 100;
            // a valid but huge label needs as many clauses: refused once they cannot be counted
            if (cls && huge && std::min({a, b, d}) >= 0)
            {
                for (int fitted = 0; fitted < 2; ++fitted)
                {
                    E e(fitted ? p.fi : p.un);
                    auto s = do_fit(e, sx, y, 2, 1);
                    p.answer("fit", show(y), s.first == T::S_OK, false, s.first);
                    E g(fitted ? p.fi : p.un);
                    s = do_pfit(g, sx, y, 2, 1);
                    p.answer("partial_fit", show(y), s.first == T::S_OK, false, s.first);
                }
                continue;
            }
            p.training(X, sx, y, cls ? 2 : 0);
        }
        for (int a : tv) for (int b : tv) for (int d : tv) p.query(X, sx, {a, b, d});
    }
    // responses up to thresholds of any size
    if (!cls)
        for (int thr : {1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, BIG - 1, BIG})
        {
            Cfg c = base(cls); c.thr = thr;
            Probe<E> p(c, 2, 2);
            std::vector<ivec> X{{0, 0}, {1, 1}};
            for (int v : {LOW, -1, 0, 1, thr - 1, thr, thr == BIG ? LOW : thr + 1, BIG})
                for (int i = 0; i < 2; ++i) { ivec y{0, 0}; y[i] = v; p.training(X, mk<S>(X), y, 0); }
        }
    else
        for (int clauses : {4, 8, 64, 1024, 65536, 536870912, BIG - 3})
        {
            Cfg c = base(cls); c.clauses = clauses;
            E e = make<E>(c);
            std::vector<ivec> X{{0, 0}, {1, 1}};
            for (long long L : {(long long)BIG / clauses + 1, (long long)BIG / clauses + 2, 0x100000000ll / clauses, (long long)BIG - 1, (long long)BIG})
            {
                if (L < 2 || L > BIG || L <= BIG / clauses) continue;
                for (int how = 0; how < 2; ++how)
                {
                    note("clauses=%d labels=%lld", clauses, L);
                    auto s = do_fit(e, mk<S>(X), how ? ivec{0, (int)L - 1} : ivec{0, 1}, how ? 2 : (int)L, 0);
                    CHECK(s.first == T::S_VALUE_ERROR, "fit of %lld labels with %d clauses per label: status %d", L, clauses, (int)s.first);
                    traces();
                }
            }
        }
}

// sizes and targets that differ from acceptable ones by a power of two
template<class E> void apart(int F, int top)
{
    using S = typename Tr<E>::Sample;
    Cfg c; c.clauses = Tr<E>::cls ? 4 : 2; c.thr = 3; c.N = 4;
    int const L = 2;
    Probe<E> p(c, F, L);
    ivec const row(F, 1);
    for (int k = 0; k <= top; ++k) for (int sign : {1, -1})
    {
        long const w = F + sign * (1l << k);
        if (w < 0) continue;
        ivec const other(w, 1);
        for (auto X : std::vector<std::vector<ivec>>{{other}, {row, other}, {other, row}, {other, other}, {row, row, other}})
        {
            auto sx = mk<S>(X);
            p.training(X, sx, ivec(X.size(), 0), L);
            p.query(X, sx, ivec(X.size(), 0));
        }
    }
    if (F > 4) return;
    for (int k = 0; k <= top; ++k)
    {
        std::vector<ivec> const X(3, row), Y(3 + (1 << k), row); auto sx = mk<S>(X), sy = mk<S>(Y);
        p.training(X, sx, ivec(Y.size(), 0), L);
        p.training(Y, sy, ivec(3, 0), L);
        E e(p.fi);
        if constexpr (Tr<E>::cls)
        {
            p.answer("evaluate", fmt("3 rows, %zu labels", Y.size()), is_ok(e.evaluate(sx, T::label_vector_type(Y.size(), 0))), false, status(e.evaluate(sx, T::label_vector_type(Y.size(), 0))));
            p.answer("evaluate", fmt("%zu rows, 3 labels", Y.size()), is_ok(e.evaluate(sy, T::label_vector_type(3, 0))), false, status(e.evaluate(sy, T::label_vector_type(3, 0))));
        }
        for (int i = 0; i < 3; ++i) for (long v : {1l << k, (1l << k) + 1, (1l << k) - 1, -(1l << k), 1 - (1l << k), -1 - (1l << k)})
        {
            if (Tr<E>::cls && v > 300) { auto y = ivec(3, 0); y[i] = (int)v; E f(p.fi); auto st = do_pfit(f, sx, y, L, 1); p.answer("partial_fit, fitted", fmt("label %ld", v), st.first == T::S_OK, false, st.first); continue; }
            auto y = ivec(3, 0); y[i] = (int)v;
            p.training(X, sx, y, L);
        }
    }
    if constexpr (Tr<E>::cls) for (int i = 0; i < 3; ++i) for (long v : {1l << 20, 1l << 24, (1l << 31) - 1, 1l << 30, 1 - (1l << 31), -(1l << 31)})
    { auto y = ivec(3, 0); y[i] = (int)v; E f(p.fi); auto st = do_pfit(f, mk<S>(std::vector<ivec>(3, row)), y, L, 1); p.answer("partial_fit, fitted", fmt("label %ld", v), st.first == T::S_OK, false, st.first); }
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string const n = Tr<E>::name;
        for (int F : {1, 2, 70, 65538}) add(fmt("%s/apart/F%d", n.c_str(), F), [=](){ apart<E>(F, F > 1000 ? 16 : tiered(17, 19)); });
        for (int r = 0; r <= tiered(3, 4); ++r) add(fmt("%s/shapes/rows%d", n.c_str(), r), [=](){ shapes<E>(r); });
        if constexpr (Tr<E>::bit)
        {
            for (int F = 1; F <= tiered(130, 260); ++F)
                if (thorough() || F < 6 || F % 64 < 3 || F % 64 > 60 || F % 16 == 1) add(fmt("%s/padding/F%d", n.c_str(), F), [=](){ values<E>(F); });
            for (int F : {511, 512, 513, 575, 576, 577, 1023, 1024, 1025}) add(fmt("%s/padding/F%d", n.c_str(), F), [=](){ values<E>(F); });
        }
        else
            for (int F : tiered<ivec>({1, 2, 3, 15, 16, 17, 31, 33, 63, 64, 65, 129}, {1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257})) add(fmt("%s/values/F%d", n.c_str(), F), [=](){ values<E>(F); });
        for (auto [F, r] : std::vector<std::pair<int, int>>{{3, 4}, {3, 5}, {3, 8}, {3, 9}, {3, 16}, {3, 17}, {3, 33}, {3, 64}, {70, 65}, {3, 100}, {3, 128}, {3, 129}, {3, 255}, {3, 256}, {3, 257}, {3, 1000}, {2, 1025}, {2, 4097}, {1, 32769}, {1, 65537}, {1, 70000},
                {70, 3}, {100, 2}, {127, 2}, {200, 2}, {255, 2}, {256, 2}, {257, 2}, {300, 1}, {500, 3}, {513, 1}, {1000, 2}, {1025, 2}, {2049, 2}, {5000, 1}, {16385, 1}, {33000, 1}, {65537, 2}, {70000, 1}, {140000, 1}})
            add(fmt("%s/one wrong/%d rows of %d", n.c_str(), r, F), [=, F = F, r = r](){ one_wrong<E>(F, r); });
        add(fmt("%s/targets", n.c_str()), [=](){ targets<E>(); });
    });
}
