// The life of an estimator: complete states, an alphabet of calls, and depth-first exploration of
// all call sequences up to a depth, merging equal states.
#pragma once
#include "glue.hpp"

inline std::string pkey(T::params_t const & p)
{
    std::vector<std::string> v;
    for (auto & [k, x] : p)
    {
        std::string s = k + "=" + std::to_string(x.index()) + ":";
        std::visit([&](auto const & y)
        {
            using Y = std::decay_t<decltype(y)>;
            if constexpr (std::is_same_v<Y, std::string>) s += y;
            else if constexpr (std::is_same_v<Y, T::none_type>) s += "none";
            else if constexpr (std::is_same_v<Y, T::real_type>) s += vf::fmt("%a", (double)y);
            else s += std::to_string(y);
        }, x);
        v.push_back(s);
    }
    std::sort(v.begin(), v.end());
    std::string r;
    for (auto & s : v) r += s + ";";
    return r;
}
__attribute__((no_sanitize("thread"))) inline uint64_t mix(uint64_t h, void const * p, size_t n)
{
    auto b = (unsigned char const *)p;
    for (; n >= 8; n -= 8, b += 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; }
    for (size_t i = 0; i < n; ++i) { h = (h ^ b[i]) * 0x100000001b3ull; h ^= h >> 31; }
    return h;
}
// the future of a generator: its position, what is left of its buffer, and what it refills from
template<class G> std::string gkey(G const & g)
{
    unsigned const n = g.MTSZ * g.NS;
    uint64_t h = 1469598103934665603ull ^ g.index;
    if (g.index) h = mix(h, g.RESp() + g.index, (n - g.index) * sizeof (*g.RESp()));
    h = mix(h, g.MTp(), n * sizeof (unsigned));
    return vf::fmt("%u:%016llx", g.index, (unsigned long long)h);
}
template<class St> std::string polarity_key(St const & st)
{
    std::string k;
    if constexpr (std::is_same_v<typename St::ta_state_type, T::TAStateWithPolarity>)
    {
        auto & m = st.ta_state.polarity;
        for (unsigned r = 0; r < m.rows(); ++r)
        {
            auto row = m.row_data(r);
            k.append((char const *)row, (m.cols() + 7) / 8);
        }
        k += vf::fmt("%ux%u", (unsigned)m.rows(), (unsigned)m.cols());
    }
    return k;
}
struct FullState
{
    std::string params, model, igen, fgen;
    bool operator==(FullState const & o) const { return params == o.params && model == o.model && igen == o.igen && fgen == o.fgen; }
    bool operator!=(FullState const & o) const { return !(*this == o); }
    std::string key() const { return params + model + igen + fgen; }
    std::string diff(FullState const & o) const
    {
        if (params != o.params) return "parameters: " + params + " / " + o.params;
        if (model != o.model) return "automata, weights, mask or counting type";
        if (igen != o.igen) return "integer generator " + igen + " / " + o.igen;
        if (fgen != o.fgen) return "float generator " + fgen + " / " + o.fgen;
        return "";
    }
};
template<class St> FullState full(St const & st)
{
    auto s = snap(st);
    return {pkey(st.m_params), s.key() + vf::fmt("|%d,%d,%d,%zu|", s.rows, s.cols, ta_width(st), s.w.size()) + polarity_key(st), gkey(st.igen), gkey(st.fgen)};
}

// data sets -------------------------------------------------------------------------------
struct Set
{
    std::string name; int F, L; std::vector<ivec> X; ivec y;   // y: labels, or responses within [0, thr]
};
inline Set make_set(std::string name, int F, int L, int n, bool cls, int thr, unsigned salt = 0)
{
    Set d{name, F, L, {}, {}};
    unsigned s = 4711u + 977u * F + 31u * L + salt;
    for (int i = 0; i < n; ++i)
    {
        ivec x(F);
        for (int f = 0; f < F; ++f) { s = s * 1664525u + 1013904223u; x[f] = s >> 28 & 1; }
        d.X.push_back(x);
        d.y.push_back(cls ? (i == 0 ? L - 1 : (int)((s >> 20) % L)) : (int)((s >> 20) % (thr + 1)));
    }
    return d;
}

template<class E> struct Op
{
    std::string name;
    std::function<T::status_message_t(E &)> call;
};
template<class E> T::status_message_t st_of(T::status_message_t s) { return s; }

template<class E> struct Life
{
    using State = typename Tr<E>::State; using S = typename Tr<E>::Sample;
    Cfg c; std::vector<Op<E>> ops; vf::Seen seen; std::map<std::string, int> depth_of;
    static constexpr bool cls = Tr<E>::cls;

    explicit Life(Cfg const & c) : c(c) { }
    Set A() const { return make_set("A", 2, 2, 4, cls, c.thr); }
    Set B() const { return make_set("B", 3, 3, 3, cls, c.thr); }
    Set C() const { return make_set("C", 65, 2, 2, cls, c.thr); }
    Set D() const { return make_set("D", 2, 2, 1, cls, c.thr, 5); }

    void fit(Set d, int L, unsigned ep)
    {
        auto X = mk<S>(d.X);
        ops.push_back({vf::fmt("fit %s max_labels=%d epochs=%u", d.name.c_str(), L, ep), [=](E & e){ return do_fit(e, X, d.y, L, ep); }});
    }
    void pfit(Set d, int L, unsigned ep)
    {
        auto X = mk<S>(d.X);
        ops.push_back({vf::fmt("partial_fit %s max_labels=%d epochs=%u", d.name.c_str(), L, ep), [=](E & e){ return do_pfit(e, X, d.y, L, ep); }});
    }
    template<class R> static T::status_message_t stat(T::Either<T::status_message_t, R> const & r) { vf::transitions(); return r.isLeft ? r.leftValue : T::status_message_t{T::S_OK, ""}; }
    void predict(Set d)
    {
        auto X = mk<S>(d.X);
        ops.push_back({"predict " + d.name, [=](E & e){ return stat(e.predict(X)); }});
        ops.push_back({"predict one of " + d.name, [=](E & e){ return stat(e.predict(X[0])); }});
    }
    void query(Set d)
    {
        auto X = mk<S>(d.X);
        if constexpr (cls)
        {
            ops.push_back({"decision_function " + d.name, [=](E & e){ return stat(e.decision_function(X)); }});
            ops.push_back({"decision_function one of " + d.name, [=](E & e){ return stat(e.decision_function(X[0])); }});
            ops.push_back({"evaluate " + d.name, [=](E & e){ return stat(e.evaluate(X, d.y)); }});
        }
    }
    // calls that must be refused in every state
    void refused()
    {
        auto a = A(); auto X = mk<S>(a.X);
        auto yneg = a.y; yneg[1] = -1;
        auto yhigh = a.y; yhigh[1] = cls ? std::numeric_limits<int>::max() : c.thr + 1;
        auto yshort = a.y; yshort.pop_back();
        std::vector<S> none;
        auto rag = X; rag[2] = mk<S>(ivec{1, 0, 1});
        auto both = [&](std::string n, std::vector<S> x, ivec y, int L)
        {
            ops.push_back({"fit with " + n, [=](E & e){ return do_fit(e, x, y, L, 1); }});
            ops.push_back({"partial_fit with " + n, [=](E & e){ return do_pfit(e, x, y, L, 1); }});
        };
        both("a negative target", X, yneg, -1);
        both("a target too high", X, yhigh, -1);
        both("too few targets", X, yshort, -1);
        both("no data", none, {}, 2);
        both("ragged rows", rag, a.y, -1);
        if constexpr (!Tr<E>::bit)
        {
            auto bad = X; bad[3] = mk<S>(ivec{0, 2});
            both("a feature value of 2", bad, a.y, -1);
            ops.push_back({"predict with a feature value of 2", [=](E & e){ return stat(e.predict(bad)); }});
            ops.push_back({"predict one with a feature value of 2", [=](E & e){ return stat(e.predict(bad[3])); }});
        }
        else
        {
            auto bad = X; bad[3].m_vector[0] |= 1ull << 63;
            both("a padding bit set", bad, a.y, -1);
            ops.push_back({"predict with a padding bit set", [=](E & e){ return stat(e.predict(bad)); }});
            ops.push_back({"predict one with a padding bit set", [=](E & e){ return stat(e.predict(bad[3])); }});
        }
        ops.push_back({"predict with ragged rows", [=](E & e){ return stat(e.predict(rag)); }});
        ops.push_back({"predict with no data", [=](E & e){ return stat(e.predict(none)); }});
        auto odd = mk<S>(std::vector<ivec>{ivec(7, 1), ivec(7, 0)});
        ops.push_back({"predict with 7 features", [=](E & e){ return stat(e.predict(odd)); }});
        ops.push_back({"predict one with 7 features", [=](E & e){ return stat(e.predict(odd[0])); }});
        if constexpr (cls)
        {
            ops.push_back({"evaluate with no data", [=](E & e){ return stat(e.evaluate(none, ivec{})); }});
            ops.push_back({"evaluate with too few targets", [=](E & e){ return stat(e.evaluate(X, yshort)); }});
            ops.push_back({"evaluate with 7 features", [=](E & e){ return stat(e.evaluate(odd, ivec{0, 1})); }});
            ops.push_back({"decision_function with 7 features", [=](E & e){ return stat(e.decision_function(odd)); }});
            ops.push_back({"decision_function one with 7 features", [=](E & e){ return stat(e.decision_function(odd[0])); }});
            ops.push_back({"decision_function with no data", [=](E & e){ return stat(e.decision_function(none)); }});
            ops.push_back({"fit with a single label", [=](E & e){ return do_fit(e, X, ivec(4, 0), 1, 1); }});
            ops.push_back({"fit with no label", [=](E & e){ return do_fit(e, X, ivec(4, 0), -3, 1); }});
        }
    }

    // visit(state, path) at every distinct state reachable within `depth` calls
    template<class V> void explore(int depth, V visit)
    {
        E e = make<E>(c);
        auto p = e.clone_state();
        walk(*p, depth, "new", visit);
    }
    template<class V> void walk(State const & st, int depth, std::string const & path, V & visit)
    {
        auto const k = full(st).key();
        bool const fresh = seen.insert(k);
        auto it = depth_of.find(k);
        if (it != depth_of.end() && it->second >= depth) return;
        depth_of[k] = depth;
        vf::note("%s", path.c_str());
        if (fresh) visit(st, path);
        if (depth == 0) return;
        for (auto & op : ops)
        {
            vf::note("%s, %s", path.c_str(), op.name.c_str());
            E e(st);
            op.call(e);
            auto p = e.clone_state();
            walk(*p, depth - 1, path + ", " + op.name, visit);
        }
    }
};

// A long life: hundreds of calls of fit and partial_fit, with something done before each of them.  What
// is done must not show: the states must be those of a life without it.
template<class E> struct LongLife
{
    using State = typename Tr<E>::State; using S = typename Tr<E>::Sample;
    Cfg c; std::vector<Set> sets; std::vector<std::vector<S>> X; std::vector<FullState> plain;
    LongLife(Cfg const & c, int n) : c(c)
    {
        bool const cls = Tr<E>::cls;
        for (auto d : {make_set("A", 2, 2, 4, cls, c.thr), make_set("E", 40, 4, 12, cls, c.thr, 3), make_set("B", 3, 3, 3, cls, c.thr), make_set("C", 65, 2, 2, cls, c.thr)}) { sets.push_back(d); X.push_back(mk<S>(d.X)); }
        E e = make<E>(c);
        for (int i = 0; i < n; ++i) { step(e, i); plain.push_back(full(*e.clone_state())); }
        vf::states(n); vf::transitions(n);
    }
    int set(int i) const { return i / 61 % 4; }
    int epochs(int i) const { return i % 7 == 3 ? 3 : i % 13 == 5 ? 0 : 1; }
    void step(E & e, int i) const
    {
        auto const & d = sets[set(i)];
        ok(i % 61 == 0 ? do_fit(e, X[set(i)], d.y, d.L, epochs(i)) : do_pfit(e, X[set(i)], d.y, d.L, epochs(i)), "training");
    }
    template<class F> void with(char const * what, F between) const
    {
        E e = make<E>(c);
        for (int i = 0; i < (int)plain.size(); ++i)
        {
            vf::note("%s: %d trainings, then %s", Tr<E>::name, i, what);
            between(e, i);
            step(e, i);
            auto const d = full(*e.clone_state()).diff(plain[i]);
            CHECK(d.empty(), "training %d of a long life, with %s before each, leads to another state: %s", i, what, d.c_str());
            vf::transitions(2);
        }
        vf::traces();
    }
};

// configurations under which lives are explored
inline std::vector<std::pair<std::string, Cfg>> life_cfgs(bool cls)
{
    std::vector<std::pair<std::string, Cfg>> r;
    Cfg c; c.clauses = cls ? 4 : 4; c.thr = 3; c.N = 3;
    r.push_back({"plain", c});
    { Cfg d = c; d.weighted = true; d.maxw = 3; d.s = 1.5f; r.push_back({"weighted", d}); }
    { Cfg d = c; d.N = 200; d.weighted = true; d.boost = true; d.seed = 7; r.push_back({"int16", d}); }
    { Cfg d = c; d.N = 1; d.ctype = "int32"; d.jobs = 2; d.s = 1.f; r.push_back({"int32", d}); }
    if (!cls)
    {
        Cfg d = c; d.bm = true; d.loss = "L1+2"; d.C1 = 0.5f; d.weighted = true; r.push_back({"boxmuller", d});
    }
    return r;
}
template<class E> std::string lname(std::string const & c) { return std::string(Tr<E>::name) + "/" + c; }
