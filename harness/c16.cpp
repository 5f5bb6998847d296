// C16: the number of literals the specificity coin picks, and which ones.  Observed through training:
// one clause of a machine is put in a state in which every literal shows how often it was picked.  The
// draws that decide are found by varying each draw, then all their outcomes are enumerated.
#include "steps.hpp"
#include <random>
using namespace vf;

enum Kind { FALSE_CLAUSE, TRUE_CLAUSE };

template<class E> struct Coin
{
    int F; float s; Kind kind; int label, index; Cfg cfg; Stepper<E> S; Snap b; ivec x;
    static constexpr bool cls = Tr<E>::cls;

    static Cfg conf(float s, int index, bool boost)
    {
        Cfg c; c.s = s; c.N = 100; c.thr = 1000; c.loss = "MAE"; c.boost = boost;
        c.clauses = cls ? 4 * (index / 2 + 1) : 2;
        return c;
    }
    // cls: clause `index` of label 0 (trained label) or 1 (the other one)
    Coin(int F, float s, Kind kind, int label, int index) : F(F), s(s), kind(kind), label(label), index(index), cfg(conf(s, index, false)), S(cfg, F, cls ? 2 : 0), x(F)
    {
        b = S.base();
        int const per = cls ? cfg.clauses / 2 : 1, o = label * per + index;
        for (int i = 0; i < F; ++i) x[i] = kind == TRUE_CLAUSE ? i % 3 != 0 : i % 2;
        for (int r = 0; r < b.rows; ++r)
            for (int i = 0; i < F; ++i)
            {
                if (r / 2 == o) b.ta[r][i] = kind == FALSE_CLAUSE ? 90 : (r % 2 ? !x[i] : x[i]) ? 10 : -10;
                else b.ta[r][i] = 5;          // false on every sample
            }
    }
    // how often each literal was picked: positive ones, then negated ones; for a true clause picked
    // means a true literal stayed or a false one was weakened
    ivec picks(std::vector<unsigned> const & iv, unsigned & draws)
    {
        auto a = S.run(b, x, cls ? 0 : cfg.thr, iv, 0, {}, YES);
        draws = S.idr; traces();
        int const per = cls ? cfg.clauses / 2 : 1, o = label * per + index;
        ivec r(2 * F);
        for (int n = 0; n < 2; ++n)
            for (int i = 0; i < F; ++i)
            {
                int const d = a.ta[2 * o + n][i] - b.ta[2 * o + n][i];
                bool const lit = n ? !x[i] : x[i];
                if (kind == FALSE_CLAUSE) { CHECK(d <= 0, "%s: a false clause was strengthened", name().c_str()); r[n * F + i] = -d; }
                else if (lit) { CHECK(d == 0 || d == 1, "%s: true literal %d moved by %d", name().c_str(), i, d); r[n * F + i] = 1 - d; }
                else { CHECK(d == 0 || d == -1, "%s: false literal %d moved by %d", name().c_str(), i, d); r[n * F + i] = -d; }
            }
        return r;
    }
    std::string name() const { return fmt("%s F=%d s=%.9g %s clause %d of label %d", Tr<E>::name, F, s, kind == FALSE_CLAUSE ? "false" : "true", index, label); }
    int sum(ivec const & p, int n) const { int t = 0; for (int i = 0; i < F; ++i) t += p[n * F + i]; return t; }
    bool once() const { return !Tr<E>::bit || kind == TRUE_CLAUSE; }
};

static std::vector<unsigned> filler(unsigned n, unsigned rot) { std::vector<unsigned> v(n); for (unsigned i = 0; i < n; ++i) v[i] = rot + i; return v; }

// the number of picks: the floor of F/s or one more, on average F/s
template<class E> void number(Coin<E> & C, int grid)
{
    double const h = (double)C.F / (double)C.s, eps = 2e-7 * h + 1e-7;
    int const lo = (int)std::floor(h - eps), hi = std::max(0, (int)std::ceil(h + eps));
    unsigned n = 0;
    auto check = [&](ivec const & p, char const * what)
    {
        for (int side = 0; side < 2; ++side)
        {
            int const t = C.sum(p, side);
            CHECK(t >= lo && t <= hi, "%s: the coin picked %d %s literals, F/s=%.9g (%s)", C.name().c_str(), t, side ? "negated" : "positive", h, what);
        }
        if (C.once()) for (int i = 0; i < 2 * C.F; ++i) CHECK(p[i] <= 1, "%s: literal %d was picked %d times by one coin", C.name().c_str(), i, p[i]);
        if (C.s == 1.f && C.once()) for (int i = 0; i < 2 * C.F; ++i) CHECK(p[i] == 1, "%s: literal %d was not picked with s=1", C.name().c_str(), i);
    };
    note("%s", C.name().c_str());
    auto const p0 = C.picks({}, n); check(p0, "consecutive draws");
    if (lo == hi) { for (unsigned rot : {7u, 0xfffff000u}) { auto p = C.picks(filler(40, rot), n); check(p, "consecutive draws"); } return; }
    unsigned const width = std::min(n, (unsigned)(60 + 4 * hi));
    auto const base = filler(width, 0);
    auto const ref = C.picks(base, n);
    bool found[2] = {false, false};
    for (unsigned k = 0; k < width && k < n; ++k)
    {
        if (found[0] && found[1]) break;
        ivec e[2];
        for (int v = 0; v < 2; ++v) { auto iv = base; iv[k] = v ? 0xffffffffu : 0u; e[v] = C.picks(iv, n); check(e[v], "an extreme draw"); }
        bool dec[2]; for (int side = 0; side < 2; ++side) dec[side] = C.sum(e[0], side) != C.sum(e[1], side) && !found[side];
        if (!dec[0] && !dec[1]) continue;
        // all outcomes of the draw that decides
        long long tot[2] = {0, 0};
        for (int g = 0; g < grid; ++g)
        {
            auto iv = base; iv[k] = (unsigned)(((unsigned long long)g * 2 + 1) * (0x80000000ull / grid));
            auto p = C.picks(iv, n); check(p, "all draws");
            for (int side = 0; side < 2; ++side) tot[side] += C.sum(p, side);
        }
        for (int side = 0; side < 2; ++side)
            if (dec[side])
            {
                found[side] = true;
                double const mean = (double)tot[side] / grid;
                CHECK(std::fabs(mean - h) <= 1.01 / grid + eps, "%s: on average the coin picks %.9g %s literals instead of %.9g", C.name().c_str(), mean, side ? "negated" : "positive", h);
                count("deciding draws enumerated");
            }
    }
    double const frac = h - std::floor(h);
    for (int side = 0; side < 2; ++side)
        if (!found[side]) CHECK(std::min(frac, 1 - frac) < 1e-6 + 2 * eps || (int)width < (int)n, "%s: F/s=%.9g, but the number of %s literals is always %d", C.name().c_str(), h, side ? "negated" : "positive", C.sum(ref, side));
}

template<class E> void numbers(int F0, int F1, std::vector<float> ss, int grid)
{
    Seen seen;
    for (int F = F0; F <= F1; ++F)
    {
        auto list = ss;
        for (float m : {0.5f, 1.f, 1.001f, 2.f}) if (F * m >= 1) list.push_back(F * m);
        for (float s : list)
            for (Kind k : {FALSE_CLAUSE, TRUE_CLAUSE})
            {
                Coin<E> C(F, s, k, 0, 0);
                seen.insert(C.name());
                number(C, grid);
            }
    }
}
// tens of thousands of features: the number of picks, and no part of the row is left out or preferred
template<class E> void huge(int F)
{
    Seen seen;
    for (float s : {1.f, 1.01f, 1.5f, 3.9f, 100.f, 1000.f, F / 3.f, F * 2.f})
        for (Kind k : {FALSE_CLAUSE, TRUE_CLAUSE})
        {
            Coin<E> C(F, s, k, 0, 0);
            seen.insert(C.name()); note("%s", C.name().c_str());
            double const h = (double)F / (double)s, eps = 2e-7 * h + 1e-7;
            int const lo = (int)std::floor(h - eps), hi = std::max(0, (int)std::ceil(h + eps));
            std::vector<double> part[2] = {std::vector<double>(16), std::vector<double>(16)};
            int const runs = std::max(4, std::min(200, (int)(3000 / (h + 1))));
            for (int r = 0; r < runs; ++r)
            {
                unsigned n = 0;
                std::vector<unsigned> iv(C.S.st.igen.MTSZ * C.S.st.igen.NS - RNG_AT); std::mt19937 mt(r + 1); for (auto & v : iv) v = mt();
                auto const p = C.picks(iv, n);
                for (int side = 0; side < 2; ++side)
                {
                    int const t = C.sum(p, side);
                    CHECK(t >= lo && t <= hi, "%s: the coin picked %d %s literals, F/s=%.9g", C.name().c_str(), t, side ? "negated" : "positive", h);
                    for (int i = 0; i < F; ++i) part[side][(long long)i * 16 / F] += p[side * F + i];
                    if (C.once()) for (int i = 0; i < F; ++i) CHECK(p[side * F + i] <= 1 && (s > 1 || p[side * F + i]), "%s: %s literal %d was picked %d times by one coin", C.name().c_str(), side ? "negated" : "positive", i, p[side * F + i]);
                }
            }
            // a sixteenth of the row gets a sixteenth of the picks, within ten standard deviations
            double const want = runs * h / 16, dev = 10 * std::sqrt(want) + 10 + runs;
            if (runs * h > 3000 && s > 1)
                for (int side = 0; side < 2; ++side) for (int q = 0; q < 16; ++q)
                    CHECK(std::fabs(part[side][q] - want) <= dev, "%s: part %d of 16 of the %s literals was picked %g times in %d coins instead of about %g", C.name().c_str(), q, side ? "negated" : "positive", part[side][q], runs, want);
        }
}
// the other clauses that get Type I feedback
template<class E> void positions(int grid)
{
    Seen seen;
    for (int F : {1, 3, 5, 9, 17}) for (float s : {1.f, 1.3f, 2.5f, 20.f})
        for (auto [label, index] : {std::pair{0, 2}, {0, 4}, {1, 1}, {1, 3}, {1, 5}})
            for (Kind k : {FALSE_CLAUSE, TRUE_CLAUSE}) { Coin<E> C(F, s, k, label, index); seen.insert(C.name()); number(C, grid); }
}

// which literals: with one pick, the values of the draw that decides pick each literal equally often
template<class E> void which(int F0, int F1)
{
    Seen seen;
    for (int F = F0; F <= F1; ++F)
        for (Kind kind : {FALSE_CLAUSE, TRUE_CLAUSE})
        {
            Coin<E> C(F, F == 1 ? 1.f : F / 1.25f, kind, 0, 0);      // one pick, or two with the least draws
            seen.insert(C.name()); note("%s", C.name().c_str());
            unsigned n = 0;
            // the number of picks may be one more because of rounding: make it the lower
            unsigned const width = 24;
            bool found[2] = {false, false};
            for (unsigned k = 0; k < width && !(found[0] && found[1]); ++k)
            {
                std::vector<unsigned> base(width, 0xffffff00u); for (unsigned i = 0; i < width; ++i) base[i] += i;
                auto at = [&](unsigned v) { auto iv = base; iv[k] = v; return C.picks(iv, n); };
                // values that cover all residues and all multiples of 2^32/F
                auto value = [&](int j) { unsigned long long q = (unsigned long long)j * (0x100000000ull / F); return (unsigned)(q + (j + F - q % F) % F); };
                auto p = at(value(0)); unsigned const np = n; auto q = at(value(F - 1));
                if (n != np || C.sum(p, 0) != 1 || C.sum(p, 1) != 1 || C.sum(q, 0) != 1 || C.sum(q, 1) != 1) continue;      // it also moves other draws
                for (int side = 0; side < 2; ++side)
                {
                    if (found[side]) continue;
                    if (F > 1 && std::equal(p.begin() + side * F, p.begin() + side * F + F, q.begin() + side * F)) continue;
                    ivec hit(F);
                    bool one = true;
                    for (int j = 0; j < F && one; ++j) { auto r = at(value(j)); if (C.sum(r, side) != 1) one = false; for (int i = 0; i < F; ++i) hit[i] += r[side * F + i]; }
                    if (!one) continue;
                    found[side] = true;
                    for (int i = 0; i < F; ++i) CHECK(hit[i] == 1, "%s: of %d equally spread draws %d pick %s literal %d", C.name().c_str(), F, hit[i], side ? "negated" : "positive", i);
                    count("pick draws enumerated");
                }
            }
            CHECK(found[0] && found[1], "%s: no draw decides which literal is picked", C.name().c_str());
        }
}

// exact distribution for small F: all sequences of the draws that pick, each letter of the alphabet equally likely
template<class E> void distribution(int F, float s, Kind kind, unsigned D, int side)
{
    Coin<E> C(F, s, kind, 0, 0);
    Seen seen;
    int const h = (int)std::lround(F / s);
    // alphabet: every combination of residue modulo F and of F-th part of the range
    std::vector<unsigned> A;
    for (int hi = 0; hi < F; ++hi) for (int r = 0; r < F; ++r) { unsigned long long q = (unsigned long long)hi * (0x100000000ull / F) + 1000; q += (r + F - q % F) % F; A.push_back((unsigned)q); }
    double mass = 0; std::vector<double> prob(F); std::map<std::string, double> sets;
    long long leaves = 0; unsigned order = 0;
    auto part = [&](ivec const & p, int sd) { return ivec(p.begin() + sd * F, p.begin() + sd * F + F); };
    std::function<void(std::vector<unsigned> &, unsigned, double)> rec = [&](std::vector<unsigned> & iv, unsigned from, double w)
    {
        unsigned nd; auto p = C.picks(iv, nd);
        // the next draw that decides on this side alone
        if (order < D)
            for (unsigned k = from; k < std::min(nd, 16u); ++k)
            {
                bool inf = false;
                for (auto a : A)
                {
                    auto jv = iv; jv[k] = a; unsigned m; auto q = C.picks(jv, m);
                    if (part(p, side) != part(q, side) && part(p, 1 - side) == part(q, 1 - side)) { inf = true; break; }
                }
                if (!inf) continue;
                ++order;
                for (auto a : A) { auto jv = iv; jv[k] = a; rec(jv, k + 1, w / A.size()); }
                --order;
                return;
            }
        ++leaves; mass += w;
        auto const q = part(p, side);
        seen.insert(show(q));
        CHECK(C.sum(p, side) >= h && C.sum(p, side) <= h + 1, "%s: %d picks", C.name().c_str(), C.sum(p, side));
        for (int i = 0; i < F; ++i) prob[i] += w * q[i];
        sets[show(q)] += w;
    };
    std::vector<unsigned> iv = filler(400, 0xfffff000u);
    note("%s side %d", C.name().c_str(), side);
    rec(iv, 0, 1.);
    CHECK(std::fabs(mass - 1) < 1e-9, "%s: total probability %.9g", C.name().c_str(), mass);
    CHECK(leaves > 1, "%s: no draw decides which literals are picked", C.name().c_str());
    // what is left to longer sequences of rejected draws is bounded
    double const rest = C.once() ? (h > 1 ? std::pow((h - 1.) / F, (double)D - h + 1) * (1 << (h - 1)) : 0) : 0;
    for (int i = 0; i < F; ++i) CHECK(std::fabs(prob[i] - (double)h / F) <= rest + 1e-5, "%s: %s literal %d is picked with probability %.6g instead of %.6g (+-%.2g)", C.name().c_str(), side ? "negated" : "positive", i, prob[i], (double)h / F, rest);
    if (C.once())
    {
        double ways = 1; for (int i = 0; i < h; ++i) ways = ways * (F - i) / (i + 1);
        CHECK((double)sets.size() == ways, "%s: %zu of %.0f possible picks occur", C.name().c_str(), sets.size(), ways);
        for (auto & [k, w] : sets) CHECK(std::fabs(w - 1 / ways) <= rest + 1e-5, "%s: literals %s are picked with probability %.6g instead of %.6g", C.name().c_str(), k.c_str(), w, 1 / ways);
    }
    count("draw sequences", leaves);
}

void setup()
{
    std::vector<float> ss{1.f, std::nextafter(1.f, 2.f), 1.01f, 1.1f, 1.25f, 4.f / 3, 1.5f, 1.75f, 2.f, 2.5f, 3.f, 3.7f, 3.9f, 5.f, 7.3f, 10.f, 27.f, 100.f, 1000.f};
    if (!thorough()) ss = {1.f, std::nextafter(1.f, 2.f), 1.1f, 4.f / 3, 1.75f, 2.f, 2.5f, 3.f, 3.9f, 10.f, 100.f};
    for_all_estimators([&](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string const nm = Tr<E>::name;
        int const step = 4, top = tiered(64, 300);
        for (int f = 1; f <= top; f += step) add(fmt("%s/number/F%d-%d", nm.c_str(), f, f + step - 1), [=]{ numbers<E>(f, f + step - 1, ss, tiered(32, 128)); });
        for (int f : {127, 128, 129, 255, 256, 257, 511, 513, 1000}) add(fmt("%s/number/large F%d", nm.c_str(), f), [=]{ numbers<E>(f, f, {1.f, 1.5f, 3.9f, 100.f}, 16); });
        for (int f : {4097, 16385, 32769, 65536, 65537, 70000, 140001}) add(fmt("%s/huge F%d", nm.c_str(), f), [=]{ huge<E>(f); });
        add(fmt("%s/number/fine", nm.c_str()), [=]{ for (int F : {3, 10}) numbers<E>(F, F, {1.7f, 4.1f, 30.f}, tiered(1024, 16384)); });
        int const wt = tiered(66, 260);
        for (int f = 1; f <= wt; f += 22) add(fmt("%s/which/F%d-%d", nm.c_str(), f, f + 21), [=]{ which<E>(f, f + 21); });
        if constexpr (Tr<E>::cls) add(nm + "/other clauses", [=]{ positions<E>(tiered(16, 64)); });
        for (Kind k : {FALSE_CLAUSE, TRUE_CLAUSE})
            for (int side = 0; side < 2; ++side)
            {
                auto one = [&](int F, float s, unsigned D) { add(fmt("%s/distribution/F%d/s%g/%s/%s", nm.c_str(), F, s, k == FALSE_CLAUSE ? "false" : "true", side ? "neg" : "pos"), [=]{ distribution<E>(F, s, k, D, side); }); };
                one(2, 2.f, 2); one(3, 3.f, 2); one(4, 4.f, 1); one(5, 5.f, 1);
                one(4, 2.f, tiered(3, 4));
                if (thorough()) { one(3, 1.5f, 5); one(6, 6.f, 2); one(5, 2.5f, 3); }
            }
    });
}
