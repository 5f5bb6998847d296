// C17: random generators.  Model: a generator is a seed and a number of draws made since; its stream is
// what a fresh generator of that seed yields.  All sequences of operations on two generators up to a
// depth, all positions of several buffers, all 2^32 raw values of the float conversion.
#include "life.hpp"
#include "tsetlini_state_json.hpp"
#include <cfenv>
using namespace vf;

template<class G> using V = typename G::value_type;
template<class G> constexpr unsigned BLOCK = G::MTSZ * G::NS;

// the stream of a seed, from a generator that is only drawn from, one at a time
template<class G> std::vector<V<G>> const & stream(int seed, unsigned n)
{
    static std::map<int, std::vector<V<G>>> m;
    auto & v = m[seed];
    if (v.size() < n) { v.clear(); auto g = std::make_unique<G>(seed); while (v.size() < n) v.push_back((*g)()); }
    return v;
}
template<class G> std::string fullkey(G const & g)
{
    uint64_t h = mix(g.index, g.RESp(), BLOCK<G> * sizeof (V<G>));
    return fmt("%u/%016llx", g.index, (unsigned long long)mix(h, g.MTp(), BLOCK<G> * sizeof (unsigned)));
}
template<class G> void follows(G const & g, int seed, unsigned at, unsigned n, char const * what)
{
    auto c = std::make_unique<G>(g);
    auto & s = stream<G>(seed, at + n);
    for (unsigned i = 0; i < n; ++i)
    {
        auto v = (*c)();
        if (memcmp(&v, &s[at + i], sizeof v)) fail("%s: draw %u of seed %d is %.9g instead of %.9g", what, at + i, seed, (double)v, (double)s[at + i]);
    }
    transitions(n);
}

// every position of the first buffers: copy, assign to generators in other states, compare, go on
template<class G> void positions(int seed, unsigned blocks, unsigned part, unsigned parts)
{
    Seen seen;
    unsigned const B = BLOCK<G>;
    auto g = std::make_unique<G>(seed);
    auto other = std::make_unique<G>(seed + 17); auto fresh = std::make_unique<G>(seed + 5);
    std::vector<V<G>> const & s = stream<G>(seed, (blocks + 2) * B);
    for (unsigned at = 0; at <= blocks * B; ++at)
    {
        if (at % parts == part || at % B < 2 || at % B > B - 3)
        {
            note("seed %d position %u", seed, at);
            auto const before = fullkey(*g);
            seen.insert(before);
            auto c = std::make_unique<G>(*g);
            CHECK(*c == *g && *g == *c, "a copy made after %u draws is not equal", at);
            auto a = std::make_unique<G>(*other), b = std::make_unique<G>(*fresh), m = std::make_unique<G>(1);
            for (unsigned k = 0; k < at % 7; ++k) (*a)();
            *a = *g; *b = *g; { G t(*g); *m = std::move(t); }
            CHECK(*a == *g && *b == *g && *m == *g, "an assigned generator is not equal to the original after %u draws", at);
            unsigned const beyond = (at % 997 < 2 || at % B < 2 || at % B > B - 3) ? B + 3 : std::min(40u, B);
            for (G * q : {c.get(), a.get(), b.get(), m.get()})
            {
                for (unsigned i = 0; i < beyond; ++i)
                {
                    auto v = i % 3 == 0 ? q->rand() : i % 3 == 1 ? q->next() : (*q)();
                    if (memcmp(&v, &s[at + i], sizeof v)) fail("after %u draws of seed %d: draw %u of a copy is %.9g instead of %.9g", at, seed, i, (double)v, (double)s[at + i]);
                }
                CHECK(!(*q == *g) && !(*g == *q), "a generator equals its copy after the copy made %u more draws", beyond);
                transitions(beyond); traces();
            }
            // the copies' draws did not touch the original, nor did the original's touch a copy
            CHECK(fullkey(*g) == before, "drawing from copies changed the original after %u draws", at);
            { auto k = std::make_unique<G>(*g); auto const kb = fullkey(*k); G & self = *g; *g = self; CHECK(fullkey(*g) == before, "self-assignment changes a generator"); follows(*g, seed, at, 3, "after self-assignment"); CHECK(fullkey(*k) == kb, "self assignment changed a copy"); }
            // a new seed forgets everything
            if (at % 31 == 0) { c->init(seed + 1); G n(seed + 1); CHECK(*c == n && fullkey(*c) == fullkey(n), "init after %u draws differs from a fresh generator", at + beyond); follows(*c, seed + 1, 0, 5, "after init"); }
        }
        auto v = (*g)();
        if (memcmp(&v, &s[at], sizeof v)) fail("draw %u of seed %d is %.9g instead of %.9g", at, seed, (double)v, (double)s[at]);
    }
}

// all sequences of operations on two generators
template<class G> struct Two
{
    struct M { int seed; unsigned at; bool operator==(M const & o) const { return seed == o.seed && at == o.at; } };
    std::set<std::string> memo; Seen seen;
    unsigned const B = BLOCK<G>;
    void walk(G const & a0, G const & b0, M ma, M mb, int depth, std::string const & path)
    {
        auto key = fmt("%d,%u,%d,%u,%d", ma.seed, ma.at, mb.seed, mb.at, depth) + fullkey(a0) + fullkey(b0);
        if (!memo.insert(key).second) return;
        seen.insert(fullkey(a0) + fullkey(b0));
        note("%s", path.c_str());
        CHECK((a0 == b0) == (ma == mb) && (b0 == a0) == (ma == mb), "[%s] comparison says %d for seed %d after %u and seed %d after %u draws", path.c_str(), (int)(a0 == b0), ma.seed, ma.at, mb.seed, mb.at);
        follows(a0, ma.seed, ma.at, 4, path.c_str()); follows(b0, mb.seed, mb.at, 4, path.c_str());
        traces();
        if (!depth) return;
        auto step = [&](std::string const & n, auto f)
        {
            auto a = std::make_unique<G>(a0), b = std::make_unique<G>(b0); M x = ma, y = mb;
            transitions();
            f(*a, *b, x, y);
            walk(*a, *b, x, y, depth - 1, path + ", " + n);
        };
        auto draw = [&](G & g, M & m, unsigned n)
        {
            auto & s = stream<G>(m.seed, m.at + n);
            for (unsigned i = 0; i < n; ++i) { auto v = g(); if (memcmp(&v, &s[m.at + i], sizeof v)) fail("[%s] draw %u of seed %d is %.9g instead of %.9g", path.c_str(), m.at + i, m.seed, (double)v, (double)s[m.at + i]); }
            m.at += n;
        };
        for (unsigned n : {1u, B - 1, B, B + 1}) { step(fmt("draw %u from a", n), [&](G & a, G &, M & x, M &){ draw(a, x, n); }); }
        step("draw from b", [&](G &, G & b, M &, M & y){ draw(b, y, 1); });
        step("draw 5000 from b", [&](G &, G & b, M &, M & y){ draw(b, y, 5000); });
        step("a=b", [&](G & a, G & b, M & x, M & y){ a = b; x = y; });
        step("b=a", [&](G & a, G & b, M & x, M & y){ b = a; y = x; });
        step("b=copy of a", [&](G & a, G & b, M & x, M & y){ auto c = std::make_unique<G>(a); draw(a, x, 0); b = *c; y = x; });
        step("a=a", [&](G & a, G &, M &, M &){ G & r = a; a = r; });
        step("init a", [&](G & a, G &, M & x, M &){ a.init(7); x = {7, 0}; });
        step("swap", [&](G & a, G & b, M & x, M & y){ std::swap(a, b); std::swap(x, y); });
    }
};
template<class G> void two(int depth)
{
    Two<G> t; auto a = std::make_unique<G>(7), b = std::make_unique<G>(8);
    t.walk(*a, *b, {7, 0}, {8, 0}, depth, "seeds 7 and 8");
}

// a stream depends on nothing but the seed: not on what was in memory before
template<class G> void memory()
{
    Seen seen;
    for (int seed : {0, 1, 42, -1, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), 65536})
        for (int fill : {0x00, 0xff, 0x5a})
        {
            void * p = std::aligned_alloc(G::alignment, (sizeof (G) + G::alignment - 1) / G::alignment * G::alignment);
            memset(p, fill, sizeof (G));
            G * g = new (p) G(seed);
            seen.insert(fmt("%d/", seed) + fullkey(*g));
            CHECK(*g == G(seed), "generators of seed %d are not equal", seed);
            auto & s = stream<G>(seed, BLOCK<G> + 100);
            for (unsigned i = 0; i < BLOCK<G> + 100; ++i) { auto v = (*g)(); CHECK(!memcmp(&v, &s[i], sizeof v), "draw %u of seed %d depends on previous contents of memory", i, seed); }
            transitions(BLOCK<G> + 100); traces();
            free(p);
        }
}
// different seeds, different streams; a refill yields fresh values
template<class G> void fresh_values(int from, int to, unsigned blocks)
{
    Seen seen;
    std::map<std::string, int> starts;
    for (int seed = from; seed < to; ++seed)
    {
        note("seed %d", seed);
        auto g = std::make_unique<G>(seed);
        std::vector<V<G>> prev, cur;
        std::set<std::string> distinct;
        for (unsigned b = 0; b < blocks; ++b)
        {
            cur.clear(); for (unsigned i = 0; i < BLOCK<G>; ++i) cur.push_back((*g)());
            transitions(BLOCK<G>); traces();
            unsigned same = 0; for (size_t i = 0; i < prev.size(); ++i) same += prev[i] == cur[i];
            CHECK(same < BLOCK<G> / 16 + 2, "seed %d: refill %u repeats %u of the %u values of the one before, in place", seed, b, same, BLOCK<G>);
            std::set<V<G>> u(cur.begin(), cur.end());
            CHECK(u.size() > BLOCK<G> * 9 / 10, "seed %d: refill %u has only %zu different values", seed, b, u.size());
            std::string k((char const *)cur.data(), 64);
            CHECK(distinct.insert(k).second, "seed %d: refill %u repeats an earlier one", seed, b);
            if (b == 0) { auto it = starts.emplace(k, seed); CHECK(it.second, "seeds %d and %d have the same stream", it.first->second, seed); seen.insert(k); }
            prev = cur;
        }
    }
}
// draws from a range: every raw value near the limits and every residue
template<class G> void ranges(int from, int to)
{
    Seen seen;
    auto g = std::make_unique<G>(3); (*g)();
    auto feed = [&](std::vector<unsigned> const & raw) { g->index = 1; auto p = g->RESp(); for (size_t i = 0; i < raw.size(); ++i) p[1 + i] = raw[i]; };
    for (int x = from; x < to; ++x)
    {
        note("range of %d values", x);
        std::vector<unsigned> raw;
        unsigned const lim = std::min(x, 400);
        for (unsigned i = 0; i < lim; ++i) { raw.push_back(i); raw.push_back(0xffffffffu - i); raw.push_back(0x80000000u + i); }
        unsigned const n = std::min<unsigned>(raw.size(), BLOCK<G> - 8);
        raw.resize(n);
        feed(raw); std::set<unsigned> got;
        for (unsigned i = 0; i < n; ++i) { auto v = g->next((unsigned)x); CHECK(v < (unsigned)x, "next(%d) yields %u", x, v); got.insert(v); }
        transitions(n); traces(); seen.insert(fmt("next(%d)", x));
        if (x <= 400) CHECK((int)got.size() == x, "next(%d) reaches only %zu values", x, got.size());
        for (int a : {0, -1, 1, -x, x, -x / 2, -1000000, 1000000})
        {
            feed(raw); std::set<int> s;
            int const b = a + x - 1;
            for (unsigned i = 0; i < n; ++i) { int v = (int)g->next(a, b); CHECK(v >= a && v <= b, "next(%d, %d) yields %d", a, b, v); s.insert(v); }
            if (x <= 400) CHECK((int)s.size() == x, "next(%d, %d) reaches only %zu values", a, b, s.size());
            transitions(n); traces();
        }
    }
}
template<class G> void big_ranges()
{
    auto g = std::make_unique<G>(3); (*g)();
    Seen seen;
    for (unsigned x : {0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 1u, 65535u, 65536u, 65537u, 1u << 24, 3u << 30})
        for (unsigned raw : {0u, 1u, x - 1, x, x + 1, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu})
        {
            g->index = 1; g->RESp()[1] = raw;
            auto v = g->next(x);
            CHECK(v < x, "next(%u) yields %u", x, v); transitions(); traces(); seen.insert(fmt("%u/%u", x, raw));
        }
    CHECK(G::min() == 0 && G::max() == 0xffffffffu, "the declared range is not that of the generator");
}
// all raw values of the float conversion
static void floats(unsigned part, unsigned parts)
{
    auto g = std::make_unique<FRNG>(1);
    uint64_t const lo = 0x100000000ull * part / parts, hi = 0x100000000ull * (part + 1) / parts;
    note("raw values %llx to %llx", (unsigned long long)lo, (unsigned long long)hi);
    float mn = 1e9f, mx = -1e9f; bool mono = true; float last = lo ? g->post_process((unsigned)(lo - 1)) : 0.f;
    for (uint64_t y = lo; y < hi; ++y)
    {
        float const f = g->post_process((unsigned)y);
        mn = f < mn ? f : mn; mx = f > mx ? f : mx; mono &= f >= last; last = f;
        if (!(f > 0.f && f <= 1.f)) fail("raw value %u becomes %.9g", (unsigned)y, f);
    }
    transitions(hi - lo); traces(hi - lo); states(hi - lo);
    // spread evenly over (0, 1]
    CHECK(mono, "the conversion to float is not monotone");
    CHECK(mn >= (double)lo / 4294967296. - 1e-6 && mn <= (double)lo / 4294967296. + 1e-6, "raw value %llx becomes %.9g", (unsigned long long)lo, mn);
    CHECK(std::fabs(mx - (double)hi / 4294967296.) < 1e-6, "raw value %llx becomes %.9g", (unsigned long long)hi - 1, mx);
}
// through saving and restoring an estimator
template<class E> void saved(unsigned part, unsigned parts, unsigned step)
{
    Cfg c; c.seed = 11 + part;
    auto st = fitted_state<E>(c, 2, 2);
    using St = decltype(st);
    Seen seen;
    unsigned const B = IRNG::MTSZ * IRNG::NS;
    auto ig = std::make_unique<IRNG>(77), ig0 = std::make_unique<IRNG>(77); auto fg = std::make_unique<FRNG>(78), fg0 = std::make_unique<FRNG>(78);
    for (unsigned at = 0; at <= 2 * B + 2; ++at)
    {
        bool const edge = at % B < 3 || at % B > B - 4;
        if ((edge && at % parts == part) || (at % step == 0 && at / step % parts == part))
        {
            note("position %u", at);
            st.igen = *ig; st.fgen = *fg;
            auto js = T::to_json_string(st);
            St r = fitted_state<E>(Cfg(), 5, 3);
            T::from_json_string(r, js);
            CHECK(r.igen == *ig && r.fgen == *fg, "%s: generators saved after %u draws are not equal when restored", Tr<E>::name, at);
            for (unsigned i = 0; i < B + 2; ++i)
            {
                IRNG & x = r.igen; FRNG & y = r.fgen;
                auto v = x(); auto w = y();
                auto & s = stream<IRNG>(77, 4 * B); auto & t = stream<FRNG>(78, 4 * B);
                CHECK(v == s[at + i] && !memcmp(&w, &t[at + i], sizeof w), "%s: generators saved after %u draws go on differently after being restored, at draw %u", Tr<E>::name, at, i);
            }
            transitions(B + 2); traces(); seen.insert(fullkey(st.igen));
        }
        (*ig)(); (*fg)();
    }
}

template<class G> void reg(std::string const & n)
{
    unsigned const parts = tiered(16u, 8u);
    for (int seed : {1, 0, -5}) for (unsigned k = 0; k < (seed == 1 ? parts : 1u); ++k)
        add(fmt("%s/positions/seed%d/%u", n.c_str(), seed, k), [=]{ positions<G>(seed, tiered(2u, 4u), k, parts); });
    add(n + "/operations", []{ two<G>(tiered(4, 6)); });
    add(n + "/memory", []{ memory<G>(); });
    add(n + "/fresh values", []{ fresh_values<G>(-8, tiered(120, 3000), tiered(8u, 12u)); });
}
void setup()
{
    reg<IRNG>("IRNG"); reg<FRNG>("FRNG");
    reg<basic_IRNG<32, 4>>("IRNG<32,4>"); reg<basic_FRNG<16, 1>>("FRNG<16,1>"); reg<basic_IRNG<64, 16>>("IRNG<64,16>");
    add("FRNG/long", []{ fresh_values<FRNG>(5, 6, tiered(200u, 4000u)); });
    add("IRNG/long", []{ fresh_values<IRNG>(5, 6, tiered(200u, 4000u)); });
    for (int x = 1; x < tiered(300, 3000); x += tiered(60, 200)) add(fmt("IRNG/ranges %d", x), [=]{ ranges<IRNG>(x, x + tiered(60, 200)); });
    add("IRNG/big ranges", []{ big_ranges<IRNG>(); });
    for (unsigned k = 0; k < 16; ++k) add(fmt("FRNG/all raw values/%u", k), [=]{ floats(k, 16); });
    for_all_estimators([](auto * p) { using E = std::decay_t<decltype(*p)>; for (unsigned k = 0; k < 2; ++k) add(fmt("%s/saved/%u", Tr<E>::name, k), [=]{ saved<E>(k, 2, tiered(331u, 5u)); }); });
}
