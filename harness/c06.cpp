// C06: the bitwise inclusion mask agrees with the automata in every reachable state, and storage
// beyond the last feature stays clear.
#include "steps.hpp"
#include <array>
#include "tsetlini_state_json.hpp"
using namespace vf;

template<class St> void coherent(St const & st, std::string const & what)
{
    auto const & P = st.ta_state.polarity;
    auto [R, C] = ta_shape(st);
    CHECK((int)P.rows() == R && (int)P.cols() == C, "%s: mask is %ux%u, automata are %dx%d", what.c_str(), (unsigned)P.rows(), (unsigned)P.cols(), R, C);
    if (!R) return;
    int const BB = sizeof (*P.row_data(0)) * 8;
    std::visit([&](auto const & m)
    {
        for (int r = 0; r < R; ++r)
        {
            auto const * d = m.row_data(r); auto const * b = P.row_data(r);
            for (int c = 0; c < C; ++c)
                CHECK((b[c / BB] >> (c % BB) & 1) == (d[c] >= 0), "%s: literal %d of row %d of %d columns: automaton %d, in the mask: %d", what.c_str(), c, r, C, (int)d[c], (int)(b[c / BB] >> (c % BB) & 1));
            // storage between the last feature and the next row
            long const stride = R > 1 ? P.row_data(1) - P.row_data(0) : (C + BB - 1) / BB;
            for (long k = C; k < stride * BB; ++k) CHECK((b[k / BB] >> (k % BB) & 1) == 0, "%s: bit %ld of row %d is set, there are %d features", what.c_str(), k, r, C);
        }
    }, st.ta_state.matrix);
    count("masks checked");
}

// what the estimator answers is what its automata say
template<class E> void answers(E const & est, Snap const & s, Cfg const & c, int L, std::vector<ivec> const & X, std::string const & what)
{
    auto Xs = mk<typename Tr<E>::Sample>(X);
    transitions(X.size());
    if constexpr (Tr<E>::cls)
    {
        auto d = take(est.decision_function(Xs), "decision_function");
        for (size_t i = 0; i < X.size(); ++i)
            CHECK(to_ivec(d[i]) == ref::scores(s, L, c.thr, X[i], 0), "%s: sample %zu: scores %s, automata say %s", what.c_str(), i, show(to_ivec(d[i])).c_str(), show(ref::scores(s, L, c.thr, X[i], 0)).c_str());
    }
    else
    {
        auto d = take(est.predict(Xs), "predict");
        for (size_t i = 0; i < X.size(); ++i) CHECK(d[i] == ref::response(s, c.thr, X[i], 0), "%s: sample %zu: response %d, automata say %d", what.c_str(), i, d[i], ref::response(s, c.thr, X[i], 0));
    }
}

static std::vector<ivec> samples(int F)
{
    std::vector<ivec> X;
    for (int k = 0; k < 6; ++k)
    {
        ivec x(F);
        for (int i = 0; i < F; ++i) x[i] = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? i % 2 : k == 3 ? (i + 1) % 2 : k == 4 ? (i / 3) % 2 : i == F - 1;
        X.push_back(x);
    }
    return X;
}

template<class E> void wide(Cfg cfg, int F)
{
    int const L = 2, N = cfg.N;
    cfg.clauses = Tr<E>::cls ? 4 : 2; cfg.loss = "MAE"; cfg.thr = Tr<E>::cls ? 50 : 1;
    Stepper<E> S(cfg, F, L);
    int const vals[] = {-1, 0, std::max(-N, -2), std::min(N - 1, 1), -N, N - 1};
    auto X = samples(F);
    Seen seen;
    for (int shift = 0; shift < 6; ++shift)
        for (int agree = 0; agree < 2; ++agree)
            for (int xs = 1; xs < 5; ++xs)
                for (int y = 0; y < 2; ++y)
                {
                    ivec const & x = X[xs];
                    Snap b = S.base();
                    for (int r = 0; r < b.rows; ++r)
                        for (int i = 0; i < F; ++i)
                        {
                            int v = vals[(i + shift + (agree ? 0 : r)) % 6];
                            bool const lit = r % 2 ? !x[i] : x[i];
                            if (agree && !lit && v >= 0) v = -1 - v;
                            b.ta[r][i] = v;
                        }
                    seen.insert(b.key());
                    note("F=%d shift=%d agree=%d xs=%d y=%d", F, shift, agree, xs, y);
                    auto st = S.run_state(b, x, y, {}, shift % 2 ? 0u : 0xf0000000u, {}, YES);
                    traces();
                    auto what = fmt("F=%d N=%d s=%g after a step (shift %d agree %d x%d y=%d)", F, N, cfg.s, shift, agree, xs, y);
                    coherent(st, what);
                    if (xs == 2) answers(E(st), snap(st), cfg, L, X, what);
                }
}

// every state of one clause, every sample, a menu of draws
template<class E> void small(Cfg cfg, int F)
{
    int const L = 2, V = 2 * cfg.N;
    cfg.clauses = Tr<E>::cls ? 4 : 2; cfg.loss = "MAE"; cfg.thr = Tr<E>::cls ? 50 : 1;
    Stepper<E> S(cfg, F, L);
    std::vector<ivec> X; for (int v = 0; v < 1 << F; ++v) X.push_back(bits(v, F));
    int total = 1; for (int i = 0; i < 2 * F; ++i) total *= V;
    Seen seen;
    for (int v = 0; v < total; ++v)
    {
        Snap b = S.base();
        for (int r = 0; r < b.rows; ++r) { int q = v; for (int k = 0; k < 2 * F; ++k) { if (k / F == r % 2) b.ta[r][k % F] = q % V - cfg.N; q /= V; } }
        seen.insert(b.key());
        for (auto & x : X)
            for (int y = 0; y < 2; ++y)
                for (auto iv : std::vector<std::vector<unsigned>>{{}, {1, 1, 1, 1, 1, 1}, {0xffffffffu, 0, 0xffffffffu, 1}, {0, 0xffffffffu, 1, 0xffffffffu, 0}})
                    for (unsigned rot : {0u, 1u, 0xf0000000u})
                    {
                        auto st = S.run_state(b, x, y, iv, rot, {}, YES);
                        traces();
                        auto what = fmt("x=%s y=%d from %s", show(x).c_str(), y, b.show().c_str());
                        coherent(st, what);
                        if (rot == 0 && iv.size() % 2 == 0) answers(E(st), snap(st), cfg, L, X, what);
                    }
    }
}

// real training, copies, saving and restoring
template<class E> void life(Cfg cfg, int F)
{
    using St = typename Tr<E>::State;
    int const L = 3;
    cfg.clauses = 8; cfg.s = 3.f; cfg.thr = 6;
    auto X = samples(F);
    for (int k = 0; k < 6; ++k) { ivec x(F); for (int i = 0; i < F; ++i) x[i] = (i * i + k * i + k) % 5 < 2; X.push_back(x); }
    ivec y; for (size_t i = 0; i < X.size(); ++i) y.push_back(i % L);
    auto Xs = mk<typename Tr<E>::Sample>(X);
    Seen seen;
    auto est = make<E>(cfg);
    auto narrow = make<E>(cfg);
    {   // a receiving state with another shape
        std::vector<ivec> Z{ivec(F > 1 ? F - 1 : 3, 1), ivec(F > 1 ? F - 1 : 3, 0)};
        ok(do_fit(narrow, mk<typename Tr<E>::Sample>(Z), ivec{0, 1}, L, 2), "fit");
    }
    for (int step = 0; step < 6; ++step)
    {
        if (step == 0) ok(do_fit(est, Xs, y, L, 0), "fit");
        else if (step == 4) ok(do_fit(est, Xs, y, L, 1), "fit");
        else ok(do_pfit(est, Xs, y, L, step == 3 ? 3 : 1), "partial_fit");
        auto what = fmt("F=%d N=%d %s step %d", F, cfg.N, cfg.ctype.c_str(), step);
        auto p = est.clone_state();
        coherent(*p, what);
        auto s = snap(*p);
        seen.insert(s.key());
        answers(est, s, cfg, L, X, what);
        E from(*p);
        answers(from, s, cfg, L, X, what + ", built from the state");
        coherent(*from.clone_state(), what + ", built from the state");
        E moved(std::move(from));
        answers(moved, s, cfg, L, X, what + ", moved");
        coherent(*moved.clone_state(), what + ", moved");
        St copy(*p); coherent(copy, what + ", copied");
        auto q = narrow.clone_state();
        *q = *p; coherent(*q, what + ", copy-assigned");
        answers(E(*q), s, cfg, L, X, what + ", copy-assigned");
        auto js = T::to_json_string(*p);
        for (int recv = 0; recv < 3; ++recv)
        {
            auto r = recv == 0 ? make<E>(cfg).clone_state() : recv == 1 ? narrow.clone_state() : est.clone_state();
            if (recv == 2) for (int c = 0; c < s.cols; ++c) set_ta(*r, 0, c, -1 - s.ta[0][c]);
            T::from_json_string(*r, js);
            transitions();
            CHECK(snap(*r) == s, "%s: restored automata differ (receiver %d)", what.c_str(), recv);
            coherent(*r, what + fmt(", restored into %d", recv));
            answers(E(*r), s, cfg, L, X, what + fmt(", restored into %d", recv));
            E e2(*r);
            ok(do_pfit(e2, Xs, y, L, 1), "partial_fit");
            auto p2 = e2.clone_state();
            coherent(*p2, what + fmt(", restored into %d and trained", recv));
            answers(e2, snap(*p2), cfg, L, X, what + fmt(", restored into %d and trained", recv));
            traces();
        }
    }
}

// many clauses and labels
template<class E> void large(Cfg cfg, int per, int L, int F)
{
    cfg.clauses = 2 * per; cfg.loss = "MAE"; cfg.thr = Tr<E>::cls ? 1000000 : 50;
    Stepper<E> S(cfg, F, L);
    auto X = samples(F);
    Seen seen;
    for (int shift = 0; shift < tiered(4, 12); ++shift)
        for (int y : std::set<int>{0, L / 2, L - 1})
        {
            ivec const & x = X[1 + shift % 4];
            Snap b = S.base();
            if (shift % 2) vast(b, x, cfg, shift);
            else for (int r = 0; r < b.rows; ++r) for (int i = 0; i < F; ++i) b.ta[r][i] = (r / 2 + i + shift / 2) % 2 ? -1 : (r % 2 ? !x[i] : x[i]) ? 0 : -1;
            seen.insert(b.key());
            note("per=%d L=%d F=%d shift=%d y=%d", per, L, F, shift, y);
            auto st = S.run_state(b, x, Tr<E>::cls ? y : shift % 2 * cfg.thr, {}, shift % 4 < 2 ? 0u : 0xf0000000u, {}, YES);
            traces();
            auto what = fmt("per=%d L=%d F=%d N=%d s=%g after a step (shift %d y=%d)", per, L, F, cfg.N, cfg.s, shift, y);
            coherent(st, what);
            answers(E(st), snap(st), cfg, L, X, what);
        }
    // and a life
    std::vector<ivec> Y; ivec y;
    for (int i = 0; i < (L < 10000 ? 2 * L + 6 : 12); ++i) { ivec x(F); for (int k = 0; k < F; ++k) x[k] = (k * k + i * k + i / 2) % 5 < 2; Y.push_back(x); y.push_back(L < 10000 ? i % L : i < 6 ? L - 1 - i : i % 5 * (L / 5)); }
    auto Ys = mk<typename Tr<E>::Sample>(Y);
    cfg.thr = std::max(10, L);
    auto e = make<E>(cfg);
    for (int step = 0; step < 5; ++step)
    {
        if (step == 0 || step == 3) ok(do_fit(e, Ys, y, L, 2), "fit"); else ok(do_pfit(e, Ys, y, L, 2), "partial_fit");
        auto p = e.clone_state();
        auto what = fmt("per=%d L=%d F=%d N=%d s=%g, step %d", per, L, F, cfg.N, cfg.s, step);
        seen.insert(snap(*p).key());
        coherent(*p, what);
        answers(e, snap(*p), cfg, L, Y, what);
        traces();
    }
}

void setup()
{
    auto reg = [](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string n = Tr<E>::name;
        std::vector<int> Fs;
        for (int F = 1; F <= tiered(20, 140); ++F) Fs.push_back(F);
        for (int F : {31, 32, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 449, 510, 511, 512, 513, 514, 1023, 1024, 1025}) if (F > tiered(20, 140)) Fs.push_back(F);
        for (int boost = 0; boost < 2; ++boost)
        {
            for (auto [ct, N] : {std::pair<char const *, int>{"int8", 1}, {"int8", 2}, {"int16", 1}, {"int16", 3}, {"int32", 1}, {"int32", 2}, {"int8", 127}})
                for (float s : {1.f, 2.3f, 1e9f})
                    for (int part = 0; part < 2; ++part)
                        add(fmt("%s wide boost=%d %s N=%d s=%g %d", n.c_str(), boost, ct, N, s, part), [=, N = N, ct = ct]{ Cfg c; c.boost = boost; c.ctype = ct; c.N = N; c.s = s; for (size_t i = part; i < Fs.size(); i += 2) wide<E>(c, Fs[i]); });
            for (float s : {1.f, 1.6f, 2.f, 1e9f})
            {
                Cfg c; c.boost = boost; c.s = s;
                for (int N : {1, 2, 3, 4}) { c.N = N; add(fmt("%s small F=1 N=%d boost=%d s=%g", n.c_str(), N, boost, s), [=]{ small<E>(c, 1); }); }
                for (int N : {1, 2}) if (N == 1 || thorough()) { c.N = N; add(fmt("%s small F=2 N=%d boost=%d s=%g", n.c_str(), N, boost, s), [=]{ small<E>(c, 2); }); }
                if (thorough()) { c.N = 1; add(fmt("%s small F=3 N=1 boost=%d s=%g", n.c_str(), boost, s), [=]{ small<E>(c, 3); }); }
            }
        }
        for (auto [per, L, F] : std::vector<std::array<int, 3>>{{2, 2, 200}, {2, 9, 3}, {2, 17, 65}, {2, 40, 5}, {2, 130, 2}, {2, 260, 1}, {10, 11, 30}, {16, 2, 33}, {32, 2, 64}, {34, 3, 5}, {64, 2, 10}, {66, 2, 70}, {128, 2, 3}, {130, 2, 66}, {256, 2, 3}, {258, 2, 2}, {516, 2, 2}, {1030, 2, 1}, {2, 2, 4097}, {2, 2, 16385}, {2, 2, 33000}, {2, 2, 66000}, {17000, 2, 1}, {34000, 2, 1}, {2, 17000, 1}, {2, 34000, 1}})
            for (int N : {1, 100, 129, 40000}) for (float s : {1.f, 2.3f, 1e9f})
            {
                if (!thorough() && per * L * F > 1500 && s == 2.3f) continue;
                if (per * L * F > 10000 && (N % 2 || s == 1.f)) continue;
                Cfg c; c.N = N; c.s = s; c.boost = N % 2; c.weighted = N > 100; c.maxw = 100;
                add(fmt("%s large per=%d L=%d F=%d N=%d s=%g", n.c_str(), per, L, F, N, s), [=, per = per, L = L, F = F]{ large<E>(c, per, L, F); });
            }
        for (int w = 0; w < 2; ++w) for (auto [ct, N] : {std::pair<char const *, int>{"auto", 100}, {"int16", 3}, {"int32", 1}, {"auto", 200}})
            add(fmt("%s life weighted=%d %s N=%d", n.c_str(), w, ct, N), [=, N = N, ct = ct]{ Cfg c; c.weighted = w; c.ctype = ct; c.N = N; for (int F : {1, 5, 63, 64, 65, 127, 128, 130, 511, 512, 513}) if (thorough() || F < 500 || N == 3) life<E>(c, F); });
    };
    reg((T::ClassifierBitwise *)nullptr); reg((T::RegressorBitwise *)nullptr);
}
