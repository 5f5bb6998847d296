// C32: states compare equal exactly when they are the same model.  All pairs of the states that short
// histories reach (each reached in several ways), and all single changes, all swaps of two entries and
// all changes of shape of small and large states, with the full contents as the oracle.
#include "life.hpp"
#include "tsetlini_state_json.hpp"
using namespace vf;

template<class St> void pair_is(St const & a, St const & b, bool same, char const * what)
{
    transitions(3);
    CHECK((a == b) == same, "%s: the states %s but compare %s", what, same ? "have the same contents" : "differ", same ? "unequal" : "equal");
    CHECK((b == a) == same, "%s: the states %s but compare %s the other way round", what, same ? "have the same contents" : "differ", same ? "unequal" : "equal");
    CHECK(equal(a, b) == same, "%s: equal() does not agree with ==", what);
}

// every pair of the states reachable within some calls
template<class E> void histories(Cfg const & c, int depth, size_t most)
{
    using State = typename Tr<E>::State;
    Life<E> life(c);
    life.fit(life.A(), 2, 1); life.fit(life.B(), 3, 1); life.fit(life.A(), 3, 0); life.pfit(life.A(), 2, 1); life.pfit(life.D(), 2, 2); life.fit(life.C(), 2, 1); life.predict(life.A());
    struct One { std::unique_ptr<State> st; std::string key, path; };
    std::vector<One> all; std::map<std::string, int> ways;
    auto keep = [&](State const & st, std::string const & path)
    {
        auto k = full(st).key();
        if (ways[k] >= 3 || all.size() >= most) return;
        ++ways[k];
        all.push_back({std::make_unique<State>(st), k, path});
    };
    std::function<void(State const &, int, std::string const &)> walk = [&](State const & st, int d, std::string const & path)
    {
        keep(st, path);
        {   // restored over another state, and assigned over another state
            State r(all[all.size() / 2].st ? *all[all.size() / 2].st : st);
            T::from_json_string(r, T::to_json_string(st));
            keep(r, path + ", saved and restored");
            State a(*all.front().st); a = st;
            pair_is(a, st, true, (path + ", assigned").c_str());
        }
        if (d == 0) return;
        for (auto & op : life.ops)
        {
            note("%s, %s", path.c_str(), op.name.c_str());
            E e(st); op.call(e);
            auto p = e.clone_state();
            walk(*p, d - 1, path + ", " + op.name);
        }
    };
    E e = make<E>(c);
    { auto p = e.clone_state(); walk(*p, depth, "new"); }
    states(all.size());
    // states of other seeds and other parameters
    for (int v = 0; v < 4; ++v)
    {
        Cfg d = c;
        if (v == 0) ++d.seed; if (v == 1) d.weighted = !d.weighted; if (v == 2) d.s += 1; if (v == 3) d.N = d.N == 3 ? 4 : 3;
        E f = make<E>(d); keep(*f.clone_state(), fmt("new, variant %d", v));
        auto X = mk<typename Tr<E>::Sample>(life.A().X);
        ok(do_fit(f, X, life.A().y, 2, 1)); keep(*f.clone_state(), fmt("fitted, variant %d", v));
    }
    size_t same = 0;
    for (size_t i = 0; i < all.size(); ++i) for (size_t j = i; j < all.size(); ++j)
    {
        bool const s = all[i].key == all[j].key;
        if (i != j && s) ++same;
        note("[%s] and [%s]", all[i].path.c_str(), all[j].path.c_str());
        pair_is(*all[i].st, *all[j].st, s, ("[" + all[i].path + "] and [" + all[j].path + "]").c_str());
        traces();
    }
    for (auto & o : all) CHECK(full(*o.st).key() == o.key, "[%s] changed by being compared", o.path.c_str());
    CHECK(same > all.size() / 8, "harness: only %zu pairs of equal states", same);
    count("pairs compared", all.size() * (all.size() + 1) / 2); count("pairs of equal states", same);
}

// every single change, and every swap
template<class E> void changes(Cfg const & c, int F, int L, bool swaps)
{
    using State = typename Tr<E>::State;
    State a = fitted_state<E>(c, F, L);
    auto const [R, C] = ta_shape(a);
    for (int r = 0; r < R; ++r) for (int i = 0; i < C; ++i) set_ta(a, r, i, (r * 7 + i * 3) % (2 * c.N) - c.N);
    for (size_t i = 0; i < a.ta_state.weights.size(); ++i) a.ta_state.weights[i] = i * 2654435761u % (unsigned)c.maxw;
    State b(a);
    auto const before = full(a).key();
    pair_is(a, b, true, "a copy");
    // the large shapes: everything near the ends and the powers of two
    auto near = [&](long i, long n) { if (n <= 300) return true; for (long p = 1; p <= 1l << 20; p *= 2) if (std::labs(i - p) <= 1) return true; return i < 3 || i >= n - 3 || i % 997 == 0; };
    auto cell = [&](char const * what, int r, int i)
    {
        note("%s %d,%d", what, r, i);
        pair_is(a, b, false, fmt("%s %d,%d of %dx%d changed", what, r, i, R, C).c_str());
        traces();
    };
    for (int r = 0; r < R; ++r) if (near(r, R)) for (int i = 0; i < C; ++i) if (near(i, C))
    {
        int const v = get_ta(a, r, i);
        for (int w : {v - 1, v + 1, -1 - v, v + 256, v - 65536, v >= 0 ? v - c.N : v + c.N})
        {
            if (w == v || w < -c.N || w > c.N - 1) continue;
            set_ta(b, r, i, w); cell("automaton", r, i);
        }
        set_ta(b, r, i, v);
    }
    for (size_t i = 0; i < a.ta_state.weights.size(); ++i) if (near(i, a.ta_state.weights.size()))
    {
        auto const v = a.ta_state.weights[i];
        for (unsigned w : {v + 1, v - 1, v ^ 0x100u, v ^ 0x10000u, v ^ 0x40000000u})
        {
            if (w == v || w >= (unsigned)c.maxw) continue;
            b.ta_state.weights[i] = w; cell("weight", i, 0);
        }
        b.ta_state.weights[i] = v;
    }
    if (swaps)
    {
        int const n = R * C;
        for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q)
        {
            int const v = get_ta(a, p / C, p % C), w = get_ta(a, q / C, q % C);
            if (v == w) continue;
            set_ta(b, p / C, p % C, w); set_ta(b, q / C, q % C, v);
            pair_is(a, b, false, fmt("automata %d and %d of %dx%d swapped", p, q, R, C).c_str());
            set_ta(b, p / C, p % C, v); set_ta(b, q / C, q % C, w);
            traces();
        }
        auto & w = b.ta_state.weights;
        for (size_t p = 0; p < w.size(); ++p) for (size_t q = p + 1; q < w.size(); ++q) if (w[p] != w[q])
        {
            std::swap(w[p], w[q]);
            pair_is(a, b, false, fmt("weights %zu and %zu swapped", p, q).c_str());
            std::swap(w[p], w[q]); traces();
        }
    }
    // one move up and one down
    if (swaps)
        for (int p = 0; p < R * C; ++p) for (int q = 0; q < R * C; ++q)
        {
            int const v = get_ta(a, p / C, p % C), w = get_ta(a, q / C, q % C);
            if (p == q || v + 1 >= c.N || w - 1 < -c.N) continue;
            set_ta(b, p / C, p % C, v + 1); set_ta(b, q / C, q % C, w - 1);
            pair_is(a, b, false, fmt("automaton %d of %dx%d moved up and %d down", p, R, C, q).c_str());
            set_ta(b, p / C, p % C, v); set_ta(b, q / C, q % C, w);
        }
    // parameters: another value, another type, one less, one more
    for (auto & [k, v] : a.m_params)
    {
        note("parameter %s", k.c_str());
        auto const old = v;
        std::visit([&](auto x)
        {
            using X = decltype(x);
            if constexpr (std::is_same_v<X, std::string>) { for (auto y : {x + "x", std::string(), std::string(x.size(), '?')}) { b.m_params.at(k) = y; pair_is(a, b, false, ("another text of parameter " + k).c_str()); } }
            else if constexpr (std::is_same_v<X, bool>) { b.m_params.at(k) = !x; pair_is(a, b, false, ("the other value of parameter " + k).c_str()); }
            else if constexpr (std::is_arithmetic_v<X>)
            {
                for (double d : {1., -1., 256., 65536.}) { X const y = (X)(x + d); if (y != x) { b.m_params.at(k) = y; pair_is(a, b, false, ("another value of parameter " + k).c_str()); } }
                if constexpr (std::is_floating_point_v<X>) { b.m_params.at(k) = std::nextafter(x, (X)1e30); pair_is(a, b, false, ("the next value of parameter " + k).c_str()); }
            }
            if constexpr (!std::is_same_v<X, std::string>) { b.m_params.at(k) = std::string("1"); pair_is(a, b, false, ("a text for parameter " + k).c_str()); }
            else { b.m_params.at(k) = 1; pair_is(a, b, false, ("a number for parameter " + k).c_str()); }
        }, old);
        b.m_params.at(k) = old;
        b.m_params.erase(k); pair_is(a, b, false, ("without parameter " + k).c_str());
        b.m_params.emplace(k, old);
        traces(3);
    }
    b.m_params.emplace("one_more", 1); pair_is(a, b, false, "with one more parameter"); b.m_params.erase("one_more");
    for (auto & [k, v] : a.m_params) for (auto & [l, w] : a.m_params) if (k < l && !(v == w))
    {
        std::swap(b.m_params.at(k), b.m_params.at(l)); pair_is(a, b, false, ("parameters " + k + " and " + l + " swapped").c_str()); std::swap(b.m_params.at(k), b.m_params.at(l)); traces();
    }
    pair_is(a, b, true, "all changes undone");
    CHECK(full(a).key() == before, "the state changed by being compared");
    states();
}

// the generators: every position of two periods against the first one and the ones around it
template<class E> void generators(Cfg const & c, bool ints)
{
    using State = typename Tr<E>::State;
    State const a = fitted_state<E>(c, 2, 2);
    int const period = a.igen.MTSZ * a.igen.NS;
    State b(a), prev(a), lap(a);
    auto draw = [&](State & s) { if (ints) s.igen(); else s.fgen(); };
    int const n = 2 * period + 3;
    for (int i = 1; i <= n; ++i)
    {
        draw(b);
        if (i > period) draw(lap);
        pair_is(a, b, false, fmt("%d draws later", i).c_str());
        pair_is(prev, b, false, fmt("after %d and %d draws", i - 1, i).c_str());
        if (i >= period) pair_is(lap, b, false, fmt("after %d and %d draws", i - period, i).c_str());
        draw(prev);
        pair_is(prev, b, true, fmt("both after %d draws", i).c_str());
        traces(2);
    }
    // other seeds
    for (unsigned s = 0; s < 64; ++s)
    {
        if (s == c.seed) continue;
        State d(a);
        if (ints) d.igen = IRNG(s); else d.fgen = FRNG(s);
        State f(a);
        if (ints) f.igen = IRNG(c.seed); else f.fgen = FRNG(c.seed);
        pair_is(f, d, false, fmt("generators of seeds %u and %u", c.seed, s).c_str());
        traces();
    }
    states(n);
}

// same entries, another shape
template<class E> void shapes(Cfg const & base)
{
    using State = typename Tr<E>::State;
    struct One { std::unique_ptr<State> st; std::string name; };
    std::vector<One> v;
    for (int clauses : {4, 8}) for (int F : {1, 2, 4, 8, 63, 64, 65, 128}) for (int L : {2, 4}) for (bool w : {false, true}) for (char const * ct : {"int8", "int16", "int32"})
    {
        if (!Tr<E>::cls && L > 2) continue;
        Cfg c = base; c.clauses = clauses; c.weighted = w; c.ctype = ct; c.N = 100;
        auto p = std::make_unique<State>(fitted_state<E>(c, F, L));
        auto const [R, C] = ta_shape(*p);
        for (int r = 0; r < R; ++r) for (int i = 0; i < C; ++i) set_ta(*p, r, i, -1);
        v.push_back({std::move(p), fmt("%d clauses, %d features, %d labels, weighted=%d, %s", clauses, F, L, w, ct)});
    }
    // as if nothing but the automata and weights told them apart
    for (auto & o : v) { o.st->igen = v[0].st->igen; o.st->fgen = v[0].st->fgen; o.st->m_params = v[0].st->m_params; o.st->cache = v[0].st->cache; }
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = i; j < v.size(); ++j)
    {
        bool const same = full(*v[i].st) == full(*v[j].st);
        note("%s and %s", v[i].name.c_str(), v[j].name.c_str());
        pair_is(*v[i].st, *v[j].st, same, (v[i].name + " and " + v[j].name).c_str());
        traces();
    }
    states(v.size());
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        for (auto & [n, c] : life_cfgs(Tr<E>::cls))
        {
            Cfg cc = c;
            add(lname<E>(n) + "/histories", [=](){ histories<E>(cc, tiered(3, 4), tiered(400, 1500)); });
        }
        for (bool w : {false, true}) for (auto [N, ct] : {std::pair<int, char const *>{100, "auto"}, {128, "int8"}, {3000, "int16"}, {200000, "int32"}})
            for (auto [F, L, clauses] : {std::tuple<int, int, int>{1, 2, 4}, {3, 2, 4}, {5, 3, 4}, {64, 2, 4}, {65, 2, 8}, {1030, 2, 4}, {70000, 2, 4}, {1, 400, 8}, {1, 2, 40000}})
            {
                Cfg c; c.weighted = w; c.N = N; c.ctype = ct; c.clauses = clauses; int f = F, l = L;
                add(fmt("%s/changes N=%d weighted=%d F=%d L=%d clauses=%d", Tr<E>::name, N, w, F, L, clauses), [=](){ changes<E>(c, f, l, f <= 5 && l <= 3 && c.clauses == 4); });
            }
        Cfg c;
        for (bool ints : {true, false}) add(fmt("%s/%s generator", Tr<E>::name, ints ? "integer" : "float"), [=](){ generators<E>(c, ints); });
        add(fmt("%s/shapes", Tr<E>::name), [=](){ shapes<E>(c); });
    });
}
