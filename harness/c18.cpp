// C18: the probability of classifier feedback.  All pairs of label scores of small thresholds (and
// extreme ones up to the largest threshold), around the exact decision point of each, and each single
// draw on its own.  A clause is seen to have received feedback because its automata change: even
// clauses of the trained label and odd ones of the contrasted label get Type I (visible on every
// clause), the others Type II (visible on true clauses, which they are here).
#include "steps.hpp"
using namespace vf;
using namespace ref;

// clause states: middle of the include range / deep excluded; room for moves in each direction
static Cl clause_state(int F, bool on, long long w, int N)
{
    Cl c{ivec(F, -N / 2), ivec(F, -N / 2), w};
    c.pos[0] = N / 2;                                       // x[0] = 1
    if (!on) c.neg[0] = N / 2;
    return c;
}

// clauses of one label with a raw vote sum of v
// shape 0: all true; 1: Type I clauses are false but for the first one, if it is needed to reach v
static void label_state(Snap & s, int l, int per, long long v, bool trained, int shape, int F, int N, bool weighted)
{
    std::vector<int> on(per, 1); std::vector<long long> w(per, 1);
    if (shape == 1) for (int k = 0; k < per; ++k) if ((k % 2 == 0) == trained) on[k] = 0;
    auto sum = [&]{ long long r = 0; for (int k = 0; k < per; ++k) r += on[k] * w[k] * (k % 2 ? -1 : 1); return r; };
    auto need = [&](int par)
    {
        int k = par; for (int j = par; j < per; j += 2) if (on[j]) { k = j; break; }
        on[k] = 1;
        // spread over the true clauses of that sign
        std::vector<int> js; for (int j = par; j < per; j += 2) if (on[j]) js.push_back(j);
        long long const d = std::llabs(v - sum());
        for (size_t i = 0; i < js.size(); ++i) w[js[i]] += d / (long long)js.size() + (i < (size_t)(d % (long long)js.size()));
    };
    long long d = v - sum();
    if (d && weighted) need(d > 0 ? 0 : 1);
    if (d && !weighted)
    {
        // switch clauses of the Type I kind off
        for (int k = 0; k < per && v != sum(); ++k) if ((k % 2 == 0) == trained) { bool const was = on[k]; on[k] = 0; if (std::llabs(v - sum()) > std::llabs(d)) on[k] = was; else d = v - sum(); }
    }
    for (int k = 0; k < per; ++k) set(s, l * per + k, clause_state(F, on[k], w[k], N));
}

// which clauses changed
static std::vector<int> changed(Snap const & a, Snap const & b)
{
    std::vector<int> r;
    for (int o = 0; o < a.rows / 2; ++o) if (!(get(a, o) == get(b, o))) r.push_back(o);
    return r;
}

template<class E> struct Prob
{
    Cfg cfg; int F, L, per; Stepper<E> S; ivec x; Seen seen;
    Prob(Cfg c, int F, int L) : cfg(c), F(F), L(L), per(c.clauses / 2), S(c, F, L), x(F, 0) { x[0] = 1; if (F > 2) x[F - 1] = 1; }

    Snap state(int y, long long v, long long vo, int shape)
    {
        Snap s = S.base();
        for (int l = 0; l < L; ++l) label_state(s, l, per, l == y ? v : vo, l == y, shape, F, cfg.N, cfg.weighted);
        return s;
    }
    int opposite = -1;
    // count of changed clauses per label when every draw is u
    std::vector<int> counts(Snap const & s, int y, std::vector<float> const & fv, float rest, unsigned rot)
    {
        auto a = S.run(s, x, y, {}, rot, fv, rest);
        traces();
        std::vector<int> c(L, 0);
        for (int o : changed(s, a)) ++c[o / per];
        return c;
    }
    // the labels' scores as the library sees them are those intended
    void point(int y, long long raw, long long rawo, int shape, unsigned rot)
    {
        Snap s = state(y, raw, rawo, shape);
        int const T = cfg.thr;
        int const v = score(s, y, per, T, x, 1);
        int opp_l = (y + 1) % L;
        int const vo = score(s, opp_l, per, T, x, 1);
        for (int l = 0; l < L; ++l) if (l != y && score(s, l, per, T, x, 1) != vo) fail("harness: states of other labels differ");
        seen.insert(s.key());
        double const p = ((double)T - v) / (2. * T), q = ((double)T + vo) / (2. * T);
        std::set<float> us{1.f, 1.1641532e-10f, .5f, .25f, .75f};
        for (double z : {p, q}) for (double d : {-1e-3, -3e-6, 3e-6, 1e-3}) { double u = z + d; if (u > 0 && u <= 1) us.insert((float)u); }
        for (float u : us)
        {
            note("%s T=%d v=%d v'=%d u=%.9g", Tr<E>::name, T, v, vo, (double)u);
            auto c = counts(s, y, {}, u, rot);
            auto judge = [&](double pr, int got, char const * who)
            {
                bool all;
                if (pr == 0) all = false; else if (pr == 1) all = true;
                else if (std::fabs(u - pr) < 2e-6) return;
                else all = u < pr;
                CHECK(got == (all ? per : 0), "T=%d score %d / contrasted %d: a draw of %.9g gives %d of %d clauses of the %s label feedback, the probability being %.9g",
                    T, v, vo, (double)u, got, per, who, pr);
            };
            judge(p, c[y], "trained");
            int most = 0, labels = 0;
            for (int l = 0; l < L; ++l) if (l != y) { most = std::max(most, c[l]); labels += c[l] > 0; }
            CHECK(labels <= 1, "clauses of %d other labels changed", labels);
            judge(q, most, "contrasted");
        }
        // independence: every draw alone decides exactly one clause
        if (p > 1e-3 && q > 1e-3 && p < 0.999 && q < 0.999)
        {
            std::set<int> done; int opp = -1;
            for (int k = 0; k < 2 * per; ++k)
            {
                std::vector<float> fv(2 * per, 1.f); fv[k] = 1.1641532e-10f;
                auto a = S.run(s, x, y, {}, rot, fv, 1.f);
                traces();
                auto ch = changed(s, a);
                CHECK(ch.size() == 1, "T=%d score %d / contrasted %d: granting draw %d alone changes %zu clauses", T, v, vo, k, ch.size());
                CHECK(done.insert(ch[0]).second, "two draws decide clause %d", ch[0]);
                if (ch[0] / per != y) opp = ch[0] / per;
                // and refusing it alone spares exactly that one
                std::fill(fv.begin(), fv.end(), 1.1641532e-10f); fv[k] = 1.f;
                auto b = S.run(s, x, y, {}, rot, fv, 1.1641532e-10f);
                auto cb = changed(s, b);
                CHECK(cb.size() == 2u * per - 1 && !std::count(cb.begin(), cb.end(), ch[0]), "T=%d score %d / contrasted %d: refusing draw %d alone spares %zu clauses", T, v, vo, k, 2 * per - cb.size());
            }
            int ny = 0; for (int o : done) ny += o / per == y;
            CHECK(ny == per && (int)done.size() == 2 * per, "the draws decide %d clauses of the trained label", ny);
            for (int o : done) CHECK(o / per == y || o / per == opp, "draws reach clauses of several other labels");
            count("independence checks");
        }
    }
};

template<class E> void small(Cfg cfg, int T, int L, int F)
{
    cfg.thr = T;
    Prob<E> P(cfg, F, L);
    for (int y = 0; y < L; ++y)
        for (int v = -T - 1; v <= T + 1; ++v)
            for (int vo = -T - 1; vo <= T + 1; ++vo)
                for (int shape = 0; shape < 2; ++shape)
                    for (unsigned rot = 0; rot < (L > 2 ? 4u : 1u); ++rot) P.point(y, v, vo, shape, rot);
}
// scores of any size, including sums far beyond the threshold
template<class E> void big(Cfg cfg, int T, int L)
{
    cfg.thr = T;
    Prob<E> P(cfg, 2, L);
    std::vector<long long> vs{0, 1, -1, T, -T, T - 1, -T + 1, T / 2, -(T / 3), T + 1ll, -T - 1ll, 2ll * T, -2ll * T};
    if (2ll * T + 8 < std::numeric_limits<int>::max()) { vs.push_back(std::numeric_limits<int>::max() - 8); vs.push_back(-std::numeric_limits<int>::max() + 8); }
    vs.push_back(3ll << 30); vs.push_back(-(3ll << 30));
    for (int y = 0; y < L; ++y) for (auto v : vs) for (auto vo : vs) P.point(y, v, vo, 0, (unsigned)y);
}

void setup()
{
    for_classifiers([](auto * e)
    {
        using E = std::decay_t<decltype(*e)>;
        std::string n = Tr<E>::name;
        Cfg c; c.clauses = 8; c.s = 1.f; c.boost = true; c.N = 40; c.weighted = true;
        for (int T = 1; T <= tiered(8, 24); ++T) add(n + fmt("/weighted T=%d", T), [=]{ small<E>(c, T, 2, 2); });
        for (int T : {1, 2, 3}) add(n + fmt("/three labels T=%d", T), [=]{ small<E>(c, T, 3, 1); });
        { Cfg d = c; d.jobs = 3; for (int T : {2, 5}) add(n + fmt("/three jobs T=%d", T), [=]{ small<E>(d, T, 2, 66); }); }
        { Cfg d = c; d.clauses = 4; for (int T : {1, 4}) add(n + fmt("/two clauses T=%d", T), [=]{ small<E>(d, T, 4, 1); }); }
        { Cfg d = c; d.clauses = 12; d.weighted = false; for (int T : {1, 2, 3, 4}) add(n + fmt("/plain T=%d", T), [=]{ small<E>(d, T, 2, 2); }); }
        { Cfg d = c; d.clauses = 12; d.weighted = false; d.boost = false; d.N = 200; d.s = 1.f; for (int T : {1, 3}) add(n + fmt("/int16 T=%d", T), [=]{ small<E>(d, T, 3, 3); }); }
        for (int cl : {20, 32, 36, 64, 68, 128, 132, 256, 260, 516, 1028})
            for (int T : {1, 3})
            {
                Cfg d = c; d.clauses = cl; d.jobs = cl % 3 + 1;
                if (!thorough() && cl > 200 && T > 1) continue;
                for (int y = 0; y < 2; ++y) for (int v = -T - 1; v <= T + 1; ++v) add(n + fmt("/%d clauses T=%d y=%d score %d", cl, T, y, v), [=]{ auto e = d; e.thr = T; Prob<E> P(e, 2, 2); for (int vo = -T - 1; vo <= T + 1; ++vo) for (int shape = 0; shape < 2; ++shape) P.point(y, v, vo, shape, 0); });
            }
        for (int L : {5, 8, 9, 16, 17, 33, 65, 130, 257})
            add(n + fmt("/%d labels", L), [=]{ Cfg d = c; d.clauses = 4; d.thr = 2; Prob<E> P(d, 2, L); for (int y : std::set<int>{0, 1, 7, 8, L / 2, L - 2, L - 1}) if (y < L) for (int v = -2; v <= 2; ++v) for (int vo = -2; vo <= 2; ++vo) for (unsigned rot : {0u, 1u, 7u, 0xffffffffu}) P.point(y, v, vo, 0, rot); });
        for (int T : {100, 1000, 4095, 65535, 1 << 20, 16777217, 1 << 30, std::numeric_limits<int>::max()})
            for (int L : {2, 3}) add(n + fmt("/T=%d labels=%d", T, L), [=]{ big<E>(c, T, L); });
    });
}
