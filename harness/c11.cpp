// C11: refused calls.  In every state reachable within a number of calls, every unacceptable call
// returns its documented status, throws nothing, and leaves the complete state and all later
// behaviour as they were.
#include "life.hpp"
using namespace vf;

template<class E> struct Bad { std::string name; bool needs_fit; std::function<T::status_message_t(E &)> call; };

template<class E> std::vector<Bad<E>> bad_calls(Life<E> & life, int F, int limit)
{
    using S = typename Tr<E>::Sample; bool const cls = Tr<E>::cls;
    std::vector<Bad<E>> r;
    int const big = std::numeric_limits<int>::max();
    auto X = std::vector<ivec>{ivec(F, 0), ivec(F, 1), ivec(F, 0)};
    if (F > 1) X[2][F - 1] = 1;
    auto sx = mk<S>(X); ivec const y{0, cls ? 1 : limit, 0};
    auto train = [&](std::string n, std::vector<S> x, ivec t, int L = 2)
    {
        for (unsigned ep : {0u, 1u})
        {
            r.push_back({fmt("fit %s, %u epochs", n.c_str(), ep), false, [=](E & e){ return do_fit(e, x, t, L, ep); }});
            r.push_back({fmt("partial_fit %s, %u epochs", n.c_str(), ep), false, [=](E & e){ return do_pfit(e, x, t, L, ep); }});
        }
    };
    auto stat = [](auto const & e){ return Life<E>::stat(e); };
    auto ask = [&](std::string n, std::vector<S> x, bool one)
    {
        r.push_back({"predict " + n, true, [=](E & e){ return stat(e.predict(x)); }});
        if (one) r.push_back({"predict one " + n, true, [=](E & e){ return stat(e.predict(x.back())); }});
        if constexpr (Tr<E>::cls)
        {
            r.push_back({"decision_function " + n, true, [=](E & e){ return stat(e.decision_function(x)); }});
            if (one) r.push_back({"decision_function one " + n, true, [=](E & e){ return stat(e.decision_function(x.back())); }});
            r.push_back({"evaluate " + n, true, [=](E & e){ return stat(e.evaluate(x, ivec(x.size(), 0))); }});
        }
    };
    train("no data", {}, {}); train("no samples", {}, y); train("no targets", sx, {});
    train("one target too few", sx, {0, 1}); train("one target too many", sx, {0, 1, 0, 1});
    for (int i = 0; i < 3; ++i)
    {
        for (int v : {-1, std::numeric_limits<int>::min()}) { auto t = y; t[i] = v; train(fmt("target %d at %d", v, i), sx, t); }
        if (!cls) for (int v : {limit + 1, big}) { auto t = y; t[i] = v; train(fmt("target %d at %d", v, i), sx, t); }
        if (cls) { auto t = y; t[i] = big; train(fmt("target %d at %d", big, i), sx, t); }
        for (int g : {F + 1, F - 1, 0, F + 64}) if (g >= 0 && g != F)
        {
            auto x = sx; x[i] = mk<S>(ivec(g, 0));
            train(fmt("row %d of %d features", i, g), x, y);
            ask(fmt("row %d of %d features", i, g), x, i == 2);
        }
        if constexpr (Tr<E>::bit)
        {
            auto const bits_ = 64 * sx[0].m_vector.size();
            for (unsigned b : {(unsigned)F, (unsigned)bits_ - 1, (unsigned)((F + 63) / 64 * 64)})
                if (b >= (unsigned)F && b < bits_) { auto x = sx; x[i].m_vector[b / 64] |= 1ull << b % 64; train(fmt("padding bit %u of row %d", b, i), x, y); ask(fmt("padding bit %u of row %d", b, i), x, i == 2); }
        }
        else
            for (int v : {2, -1, 127, -128})
                for (int f : {0, F - 1}) { auto x = sx; x[i][f] = (char)v; train(fmt("value %d in row %d", v, i), x, y); ask(fmt("value %d in row %d", v, i), x, i == 2); }
    }
    ask("no data", {}, false);
    for (int g : {0, F - 1, F + 1, F + 64, F + 512}) if (g >= 0 && g != F) ask(fmt("%d features", g), mk<S>(std::vector<ivec>{ivec(g, 1), ivec(g, 0)}), true);
    if constexpr (Tr<E>::cls)
    {
        r.push_back({"fit a single label", false, [=](E & e){ return do_fit(e, sx, ivec{0, 0, 0}, 1, 1); }});
        r.push_back({"fit a single label, max -1", false, [=](E & e){ return do_fit(e, sx, ivec{0, 0, 0}, -1, 1); }});
        r.push_back({"fit too many labels", false, [=](E & e){ return do_fit(e, sx, y, big, 1); }});
        r.push_back({"evaluate one target too few", true, [=](E & e){ return stat(e.evaluate(sx, ivec{0, 1})); }});
        r.push_back({"evaluate one target too many", true, [=](E & e){ return stat(e.evaluate(sx, ivec{0, 1, 0, 1})); }});
        r.push_back({"evaluate no targets", true, [=](E & e){ return stat(e.evaluate(sx, ivec{})); }});
    }
    return r;
}

template<class E> void run(Cfg const & c, int depth)
{
    Life<E> life(c);
    using S = typename Tr<E>::Sample; using State = typename Tr<E>::State;
    bool const cls = Tr<E>::cls;
    auto A = life.A(), B = life.B(), C = life.C(), D = life.D();
    life.fit(A, 2, 1); life.fit(B, 3, 1); life.fit(C, 2, 0);
    life.pfit(A, 2, 1); life.pfit(B, 4, 1); life.pfit(D, 2, 3); life.pfit(C, 2, 1);
    life.explore(depth, [&](State const & st, std::string const & path)
    {
        bool const fitted = ta_shape(st).first != 0;
        int const F = fitted ? ta_shape(st).second : 2;
        auto const before = full(st);
        // later behaviour
        auto later = [&](E & e)
        {
            auto X = mk<S>(std::vector<ivec>{ivec(F, 0), ivec(F, 1)});
            std::string k;
            if (fitted)
            {
                k += show(to_ivec(take(e.predict(X), "predict")));
                if constexpr (Tr<E>::cls) { auto v = take(e.decision_function(X), "decision_function"); for (auto & q : v) k += show(to_ivec(q)); k += fmt("%a", take(e.evaluate(X, ivec{0, 1}), "evaluate")); }
            }
            else CHECK(e.predict(X).isLeft && e.predict(X).leftValue.first == T::S_NOT_FITTED_ERROR, "no longer unfitted");
            ok(do_pfit(e, X, ivec{0, 1}, 2, 2), "partial_fit");
            auto p = e.clone_state();
            return k + full(*p).key();
        };
        std::string want;
        { E e(st); want = later(e); }
        // shapes to probe: the fitted one; when unfitted any
        auto calls = bad_calls<E>(life, F, c.thr);
        E all(st);      // one estimator that gets all the refused calls
        for (auto & b : calls)
        {
            note("%s, then %s", path.c_str(), b.name.c_str());
            E e(st);
            T::status_message_t s;
            try { s = b.call(e); } catch (std::exception const & x) { fail("[%s] %s throws: %s", path.c_str(), b.name.c_str(), x.what()); } catch (...) { fail("[%s] %s throws", path.c_str(), b.name.c_str()); }
            // the shape of an unfitted estimator is open: rows of another length are fine there, as long as they are equally long
            auto const expect = b.needs_fit && !fitted ? T::S_NOT_FITTED_ERROR : T::S_VALUE_ERROR;
            CHECK(s.first == expect, "[%s] %s: status %d instead of %d", path.c_str(), b.name.c_str(), (int)s.first, (int)expect);
            CHECK(!s.second.empty(), "[%s] %s: refused without a message", path.c_str(), b.name.c_str());
            { auto p = e.clone_state(); CHECK(full(*p) == before, "[%s] %s was refused but changed the estimator: %s", path.c_str(), b.name.c_str(), full(*p).diff(before).c_str()); CHECK(*p == st, "[%s] %s was refused but the states do not compare equal", path.c_str(), b.name.c_str()); }
            CHECK(pkey(e.read_params()) == before.params, "[%s] %s was refused but changed the parameters", path.c_str(), b.name.c_str());
            CHECK(later(e) == want, "[%s] %s was refused but later behaviour differs", path.c_str(), b.name.c_str());
            b.call(all);
            traces();
        }
        CHECK(later(all) == want, "[%s] all refused calls together change later behaviour", path.c_str());
    });
}

// refused calls all along
template<class E> void long_life(Cfg const & c, int n)
{
    LongLife<E> l(c, n);
    Life<E> q(c); q.refused();
    l.with("a refused call", [&](E & e, int i)
    {
        auto const & o = q.ops[(i * 7 + i / 5) % q.ops.size()];
        CHECK(o.call(e).first != T::S_OK, "%s is accepted", o.name.c_str());
    });
    l.with("all refused calls", [&](E & e, int i) { if (i % 10 == 9) for (auto & o : q.ops) CHECK(o.call(e).first != T::S_OK, "%s is accepted", o.name.c_str()); });
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        for (auto & [n, c] : life_cfgs(Tr<E>::cls))
        {
            Cfg cc = c;
            int const depth = tiered(4, 6);
            add(fmt("%s/long life", lname<E>(n).c_str()), [=](){ long_life<E>(cc, tiered(2000, 8000)); });
            add(fmt("%s/depth%d", lname<E>(n).c_str(), depth), [=](){ run<E>(cc, depth); });
        }
    });
}
