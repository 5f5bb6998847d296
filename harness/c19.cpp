// C19: how much feedback a regressor hands out.  The number of feedbacks of one step is read off the
// automata: N is so large that no automaton saturates, and each feedback moves one of them by one.
// All errors of small thresholds, both signs, all loss functions; for the normal approximation all
// 65536 outcomes of its random draw.
#include "steps.hpp"
using namespace vf;
using namespace ref;

static constexpr int NS = 30000;

static double loss(Cfg const & c, double x)
{
    x = std::fabs(x);
    double const C1 = c.C1;
    if (c.loss == "MAE" || c.loss == "L1") return x;
    if (c.loss == "MSE" || c.loss == "L2") return x * x;
    if (c.loss == "berHu") return x <= C1 ? x : x * x - C1 * C1 + C1;
    return C1 * x + (1 - C1) * x * x;
}

template<class E> struct Amount
{
    Cfg cfg; int n; Stepper<E> S; Snap lo, hi;
    static Cfg prep(Cfg c) { c.N = NS; c.s = 1.f; c.weighted = true; c.boost = true; return c; }
    Amount(Cfg c, int F = 1) : cfg(prep(c)), n(c.clauses / 2), S(cfg, F, 2)
    {
        lo = S.base();
        // every clause false on x=1: Type I weakens its positive literal
        for (int o = 0; o < n; ++o) set(lo, o, Cl{ivec(F, -1), ivec(F, NS / 2), 1});
        hi = lo;
        // every clause true: Type II steps its negated literal; together the votes reach the threshold
        for (int o = 0; o < n; ++o) set(hi, o, Cl{ivec(F, NS / 2), ivec(F, -NS), cfg.thr});
    }
    // feedbacks given for the error e, with the first draws all equal to c (then rotating)
    int hits(int e, unsigned c, unsigned rot = 0)
    {
        int const T = cfg.thr; int const F = S.F;
        Snap const & s = e > 0 ? hi : lo;
        int const y = e > 0 ? T - e : -e;
        auto a = S.run(s, ivec(F, 1), y, std::vector<unsigned>(8, c), rot, {}, 0.5f);
        traces();
        int h = 0;
        for (int o = 0; o < n; ++o)
        {
            int d;
            if (e > 0) { d = a.ta[2 * o + 1][0] - s.ta[2 * o + 1][0]; CHECK(a.ta[2 * o] == s.ta[2 * o], "e=%d: the included literal moved", e); }
            else if (e < 0) { d = s.ta[2 * o][0] - a.ta[2 * o][0]; }
            else d = a.ta[2 * o] != s.ta[2 * o] || a.ta[2 * o + 1] != s.ta[2 * o + 1];
            CHECK(d >= 0, "e=%d: clause %d moved the wrong way", e, o);
            if (F > 1 && e > 0) for (int f = 1; f < F; ++f) CHECK(a.ta[2 * o + 1][f] == a.ta[2 * o + 1][0], "literals differ");
            h += d;
        }
        CHECK(h <= n, "e=%d: %d feedbacks to %d clauses", e, h, n);
        return h;
    }
    double P(int e) const { return loss(cfg, (double)e / cfg.thr); }
};

// without the normal approximation
template<class E> void exact(Cfg cfg, bool allerr)
{
    Amount<E> A(cfg);
    Seen seen;
    int const T = cfg.thr, n = A.n;
    std::vector<int> es;
    if (allerr) for (int e = 0; e <= T; ++e) es.push_back(e);
    else { for (int e : {0, 1, 2, 3, T / 100, T / 10, T / 3, T / 2, T - 1, T}) if (e >= 0 && e <= T) es.push_back(e); std::sort(es.begin(), es.end()); }
    double prev = -1;
    for (int e : es)
    {
        double const m = n * A.P(e);
        CHECK(m >= prev, "harness: model not monotone");
        for (int sign : {-1, 1})
        {
            note("%s T=%d n=%d loss=%s C1=%g e=%d", Tr<E>::name, T, n, cfg.loss.c_str(), (double)cfg.C1, sign * e);
            seen.insert(fmt("%d %d %s %g %d", T, n, cfg.loss.c_str(), (double)cfg.C1, sign * e));
            std::set<unsigned> cs{0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu};
            // around the deciding point; single precision: 1 part in 2^23, allow 1 in 10^5
            bool const single = m < 0.5 - 1e-5;
            double const th = m * 4294967296.;
            if (single && m > 0)
                for (double f : {1e-5, 1e-3, .3}) for (double d : {th * (1 - f) - 2, th * (1 + f) + 2}) if (d >= 0 && d < 4294967295.) cs.insert((unsigned)d);
            for (unsigned c : cs)
            {
                int const h = A.hits(sign * e, c);
                if (m == 0) CHECK(h == 0, "error 0 or no loss: %d feedbacks", h);
                else if (single)
                {
                    if (std::fabs((double)c - th) < th * 0.99e-5 + 1) { CHECK(h <= 1, "%d feedbacks instead of at most one", h); continue; }
                    CHECK(h == (c < th ? 1 : 0), "e=%d of T=%d, N=%d, %s(%g): %d feedbacks on a draw of %u, expected one with probability %.8g", sign * e, T, n, cfg.loss.c_str(), (double)cfg.C1, h, c, m);
                }
                else
                {
                    int const lo = (int)std::min<double>(n, std::round(m - 2e-5 * (1 + m))), hi = (int)std::min<double>(n, std::round(m + 2e-5 * (1 + m)));
                    if (std::fabs(m - 0.5) <= 1e-5) { CHECK(h <= 1, "%d feedbacks for N*P=%.8g", h, m); continue; }
                    CHECK(h >= lo && h <= hi, "e=%d of T=%d, N=%d, %s(%g): %d feedbacks instead of %d (N*P=%.8g)", sign * e, T, n, cfg.loss.c_str(), (double)cfg.C1, h, hi, m);
                }
            }
            count("errors checked");
        }
        prev = m;
    }
}

// with the normal approximation: every outcome of the two bytes it draws
template<class E> void approx(Cfg cfg, int e)
{
    cfg.bm = true;
    Amount<E> A(cfg);
    Seen seen;
    int const n = A.n;
    double const p = std::min(1., A.P(e)), mu = n * p, sd = std::sqrt(n * p * (1 - p));
    std::vector<std::vector<unsigned>> hist;
    for (int sign : {-1, 1})
    {
        std::vector<unsigned> h(n + 1, 0);
        seen.insert(fmt("%d/%d", e, sign));
        unsigned const step = 1;
        unsigned tot = 0;
        for (unsigned v = 0; v < 65536; v += step, ++tot)
        {
            if (v % 4096 == 0) note("%s n=%d p=%.6g draw %u", Tr<E>::name, n, p, v);
            int const k = A.hits(sign * e, v * 0x10001u);
            CHECK(k >= 0 && k <= n, "%d feedbacks", k);
            ++h[k];
        }
        hist.push_back(h);
        double mean = 0, var = 0, cdf = 0, worst = 0;
        for (int k = 0; k <= n; ++k) mean += (double)k * h[k] / tot;
        for (int k = 0; k <= n; ++k) var += (k - mean) * (k - mean) * h[k] / tot;
        // clamped, rounded normal distribution
        double wm = 0, wv = 0, pc = 0, w2 = 0;
        for (int k = 0; k <= n; ++k)
        {
            double const c = k == n ? 1 : sd == 0 ? (k >= mu) : 0.5 * std::erfc(-(k + 0.5 - mu) / sd / std::sqrt(2.));
            wm += k * (c - pc); w2 += (double)k * k * (c - pc); pc = c;
            cdf += (double)h[k] / tot;
            worst = std::max(worst, std::fabs(cdf - c));
        }
        wv = w2 - wm * wm;
        if (sd == 0) CHECK(mean == mu && var == 0, "p=%g: %g feedbacks on average instead of exactly %g", p, mean, mu);
        CHECK(worst < 0.025, "N=%d p=%.6g e sign %d: the distribution of the number of feedbacks differs from the rounded normal one by %.4f (mean %.4f instead of %.4f, variance %.4f instead of %.4f)", n, p, sign, worst, mean, wm, var, wv);
        CHECK(std::fabs(mean - wm) <= 0.02 * sd + 0.01, "N=%d p=%.6g: %.5f feedbacks on average instead of %.5f", n, p, mean, wm);
        CHECK(std::fabs(var - wv) <= 0.05 * wv + 0.02, "N=%d p=%.6g: variance %.5f instead of %.5f", n, p, var, wv);
    }
    CHECK(hist[0] == hist[1], "N=%d p=%.6g: negative and positive errors have different feedback distributions", n, p);
    count("distributions");
}

void setup()
{
    for_regressors([](auto * q)
    {
        using E = std::decay_t<decltype(*q)>;
        std::string n = Tr<E>::name;
        std::vector<std::pair<std::string, float>> ls{{"MAE", 0}, {"L1", .3f}, {"MSE", 0}, {"L2", .7f}};
        for (float c : {0.f, .1f, .25f, .5f, .9f, 1.f, 3.f}) ls.push_back({"berHu", c});
        for (float c : {0.f, .1f, .25f, .5f, .9f, 1.f}) ls.push_back({"L1+2", c});
        for (auto & [l, C1] : ls)
        {
            auto nm = fmt("%s/%s C1=%g", n.c_str(), l.c_str(), (double)C1);
            Cfg c; c.loss = l; c.C1 = C1;
            add(nm + " small thresholds", [=]
            {
                for (int T = 1; T <= tiered(16, 40); ++T) for (int cl : {2, 4, 6, 10, 20, 30, 64, 66, 100, 128, 130, 256, 258}) { Cfg d = c; d.thr = T; d.clauses = cl; exact<E>(d, true); }
            });
            add(nm + " large thresholds", [=]
            {
                for (int T : {97, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65537, 1 << 20, 16777217, 1 << 30, 2147483000, 2147483647}) for (int cl : {2, 6, 40, 400, 510, 512, 514, 1026, 2050}) { Cfg d = c; d.thr = T; d.clauses = cl; exact<E>(d, T == 97); }
            });
        }
        for (int cl : {2, 20, 200, 1002})
            for (int e : thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10} : std::vector<int>{0, 1, 3, 5, 8, 10})
                if (cl < 1000 || thorough() || e == 3 || e == 10) add(fmt("%s/normal N=%d e=%d", n.c_str(), cl / 2, e), [=]{ Cfg c; c.loss = "MAE"; c.thr = 10; c.clauses = cl; approx<E>(c, e); });
        add(fmt("%s/normal MSE", n.c_str()), [=]{ Cfg c; c.loss = "MSE"; c.thr = 10; c.clauses = 80; approx<E>(c, 5); });
        add(fmt("%s/normal berHu", n.c_str()), [=]{ Cfg c; c.loss = "berHu"; c.C1 = .5f; c.thr = 10; c.clauses = 12; approx<E>(c, 7); approx<E>(c, 10); });
    });
}
