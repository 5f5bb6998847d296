// One learning step (one sample, one epoch) of a fitted estimator under chosen random
// draws, exhaustive exploration of those draws, and the reference step relation.
#pragma once
#include "glue.hpp"

// Runs single steps of E from chosen states with chosen draws.
template<class E> struct Stepper
{
    using State = typename Tr<E>::State;
    Cfg cfg; int F, L; State st;
    unsigned idr = 0, fdr = 0;            // draws made by the last step
    unsigned last_len = 0; unsigned rot_; float rest_;
    bool loaded = false, was_long = false;

    Stepper(Cfg const & c, int F, int L) : cfg(c), F(F), L(L), st(fitted_state<E>(c, F, L)) { }

    Snap base() const { return snap(st); }

    // draws: iv, then rot, rot+1, ...;  floats: fv, then rest
    State run_state(Snap const & from, ivec const & x, int y, std::vector<unsigned> const & iv, unsigned rot, std::vector<float> const & fv, float rest, unsigned epochs = 1)
    {
        put(st, from);
        load(iv, rot, fv, rest);
        E est(st);
        std::vector<typename Tr<E>::Sample> X{mk<typename Tr<E>::Sample>(x)};
        ok(do_pfit(est, X, ivec{y}, L, epochs), "partial_fit");
        auto p = est.clone_state();
        idr = idraws(*p); fdr = fdraws(*p);
        return *p;
    }
    Snap run(Snap const & from, ivec const & x, int y, std::vector<unsigned> const & iv, unsigned rot, std::vector<float> const & fv, float rest)
    {
        put(st, from);
        load(iv, rot, fv, rest);
        E est(st);
        std::vector<typename Tr<E>::Sample> X{mk<typename Tr<E>::Sample>(x)};
        ok(do_pfit(est, X, ivec{y}, L, 1), "partial_fit");
        auto p = est.clone_state();
        idr = idraws(*p); fdr = fdraws(*p);
        auto r = snap(*p);
        static int samples = 0;
        if (samples < 1 && r != from)
        {
            ++samples;
            vf::sample(vf::fmt("step of %s: x=%s y=%d leading draws %s: %s -> %s", Tr<E>::name, show(x).c_str(), y, show(ivec(iv.begin(), iv.end())).c_str(), from.show().c_str(), r.show().c_str()));
        }
        return r;
    }
private:
    void load(std::vector<unsigned> const & iv, unsigned rot, std::vector<float> const & fv, float rest)
    {
        unsigned const n = st.igen.MTSZ * st.igen.NS;
        bool const long_ = iv.size() > 900 || fv.size() > 900;
        if (!loaded || rot != rot_ || rest != rest_ || long_ || was_long) { load_igen(st, iv, rot); load_fgen(st, fv, rest); }
        else
        {
            auto p = st.igen.RESp(); unsigned i = RNG_AT;
            for (auto v : iv) p[i++] = v;
            for (unsigned k = 0; i < std::min(n, RNG_AT + 1000); ++i, ++k) { p[i] = rot + k; }
            auto q = st.fgen.RESp(); i = RNG_AT;
            for (auto v : fv) q[i++] = v;
            for (; i < std::min(n, RNG_AT + 1000); ++i) q[i] = rest;
            st.igen.index = RNG_AT; st.fgen.index = RNG_AT;
        }
        // beyond the first 1000 draws the rotation restarts, it stays fair
        loaded = true; rot_ = rot; rest_ = rest; was_long = long_;
    }
};

constexpr float YES = 1e-9f, NO = 1.f;    // floats that always / never grant feedback, unless it is certain / impossible

// Exhaustive tree of the first D integer draws over alphabet A.  leaf(draws) runs the
// step with the given leading draws and returns the number of draws consumed.
template<class Leaf> void draw_tree(std::vector<unsigned> const & A, unsigned D, std::vector<unsigned> & prefix, Leaf leaf)
{
    unsigned const n = leaf(prefix);
    if (n <= prefix.size() || prefix.size() >= D) return;
    for (auto a : A) { prefix.push_back(a); draw_tree(A, D, prefix, leaf); prefix.pop_back(); }
}
// residues 0..m-1, as small and as large values
inline std::vector<unsigned> alphabet(int m)
{
    if (m == 1) return {0u, 0xffffffffu};
    std::vector<unsigned> a;
    for (int i = 0; i < m; ++i) a.push_back(i);
    for (int r = 0; r < m; ++r) { unsigned v = 0xffffffffu; while ((int)(v % m) != r) --v; a.push_back(v); }
    return a;
}

namespace ref
{
// state of one clause
struct Cl
{
    ivec pos, neg; long long w;     // w: effective weight
    bool operator<(Cl const & o) const { return std::tie(pos, neg, w) < std::tie(o.pos, o.neg, o.w); }
    bool operator==(Cl const & o) const { return pos == o.pos && neg == o.neg && w == o.w; }
    std::string show() const { return "(" + ::show(pos) + "/" + ::show(neg) + " w=" + std::to_string(w) + ")"; }
};
inline Cl get(Snap const & s, int o) { return {s.ta[2 * o], s.ta[2 * o + 1], weight(s, o)}; }
inline void set(Snap & s, int o, Cl const & c) { s.ta[2 * o] = c.pos; s.ta[2 * o + 1] = c.neg; if (!s.w.empty()) s.w[o] = (uint32_t)(c.w - 1); }

struct Rules { int N; bool boost; bool weighted; long long maxw; int lo, hi; bool with_replacement; };   // lo..hi: coin hits per polarity
inline Rules rules(Cfg const & c, int F, bool bit)
{
    double const h = (double)F / c.s;
    int lo = (int)std::floor(h + 1e-6), hi = std::max(1, (int)std::ceil(h - 1e-6));
    return {c.N, c.boost, c.weighted, c.maxw, lo, hi, bit};
}

// all ways to distribute h coin hits over F literals
inline std::vector<ivec> hits(int F, int h, bool repl)
{
    std::vector<ivec> r;
    ivec k(F, 0);
    std::function<void(int, int)> rec = [&](int i, int left)
    {
        if (i == F) { if (!left) r.push_back(k); return; }
        for (int n = 0; n <= (repl ? left : std::min(left, 1)); ++n) { k[i] = n; rec(i + 1, left - n); }
        k[i] = 0;
    };
    rec(0, h);
    return r;
}

// Type I feedback on a false clause: picked literals are weakened
inline std::set<Cl> typeI0(Cl const & c, Rules const & R)
{
    std::set<Cl> out; int F = (int)c.pos.size();
    for (int h = R.lo; h <= R.hi; ++h)
        for (int g = R.with_replacement ? h : R.lo; g <= (R.with_replacement ? h : R.hi); ++g)
            for (auto & p : hits(F, h, R.with_replacement))
                for (auto & n : hits(F, g, R.with_replacement))
                {
                    Cl d = c;
                    for (int i = 0; i < F; ++i) { d.pos[i] = std::max(-R.N, d.pos[i] - p[i]); d.neg[i] = std::max(-R.N, d.neg[i] - n[i]); }
                    out.insert(d);
                }
    return out;
}
// Type I feedback on a true clause
inline Cl typeI1_with(Cl const & c, ivec const & x, ivec const & p, ivec const & n, Rules const & R)
{
    Cl d = c;
    for (size_t i = 0; i < x.size(); ++i)
    {
        int & t = x[i] ? d.pos[i] : d.neg[i]; int const tc = x[i] ? p[i] : n[i];     // the true literal and its coin
        int & f = x[i] ? d.neg[i] : d.pos[i]; int const fc = x[i] ? n[i] : p[i];     // the false one
        if (R.boost || !tc) t = std::min(R.N - 1, t + 1);
        if (fc) f = std::max(-R.N, f - 1);
    }
    if (R.weighted && d.w < R.maxw) ++d.w;
    return d;
}
inline std::set<Cl> typeI1(Cl const & c, ivec const & x, Rules const & R)
{
    std::set<Cl> out; int F = (int)c.pos.size();
    for (int h = R.lo; h <= R.hi; ++h)
        for (int g = R.lo; g <= R.hi; ++g)
            for (auto & p : hits(F, h, false)) for (auto & n : hits(F, g, false)) out.insert(typeI1_with(c, x, p, n, R));
    return out;
}
inline Cl typeII1(Cl const & c, ivec const & x, Rules const & R)
{
    Cl d = c;
    for (size_t i = 0; i < x.size(); ++i) { int & f = x[i] ? d.neg[i] : d.pos[i]; if (f < 0) ++f; }
    if (R.weighted && d.w > 1) --d.w;
    return d;
}
// possible results of one feedback; out: clause output before the step
inline std::set<Cl> feedback(Cl const & c, ivec const & x, bool out, bool typeI, Rules const & R)
{
    if (typeI) return out ? typeI1(c, x, R) : typeI0(c, R);
    if (out) return {typeII1(c, x, R)};
    return {c};
}
inline bool clause_true(Cl const & c, ivec const & x)     // in training: an empty clause is true
{
    for (size_t i = 0; i < x.size(); ++i) if ((c.pos[i] >= 0 && !x[i]) || (c.neg[i] >= 0 && x[i])) return false;
    return true;
}

inline std::string fmt_(int o, Cl const & b, Cl const & a, char const * what)
{
    return vf::fmt("clause %d: %s -> %s: %s", o, b.show().c_str(), a.show().c_str(), what);
}

// Is `after` a legal result of training a classifier in state `before` on (x, y)?  Returns "" or why not.
// memo: results of feedback() for (clause, output, type), shared by calls with the same x and rules
using Memo = std::map<std::tuple<Cl, bool, bool>, std::set<Cl>>;
inline std::set<Cl> const & fb(Memo & m, Cl const & c, ivec const & x, bool out, bool typeI, Rules const & R)
{
    auto k = std::make_tuple(c, out, typeI);
    auto it = m.find(k);
    if (it == m.end()) it = m.emplace(k, feedback(c, x, out, typeI, R)).first;
    return it->second;
}
inline std::string classifier_step(Snap const & before, Snap const & after, ivec const & x, int y, int L, int thr, Rules const & R, Memo & memo, int * opp_out = nullptr)
{
    int const per = before.rows / 2 / L;
    auto changed = [&](int l) { for (int o = l * per; o < (l + 1) * per; ++o) if (!(get(before, o) == get(after, o))) return true; return false; };
    std::string why;
    for (int opp = 0; opp < L; ++opp)
    {
        if (opp == y) continue;
        bool other = false;
        for (int l = 0; l < L; ++l) if (l != y && l != opp && changed(l)) other = true;
        if (other) { why = "clauses of more than one other label changed"; continue; }
        std::string w;
        for (int l : {y, opp})
        {
            int const v = score(before, l, per, thr, x, 1);
            long long const num = l == y ? (long long)thr - v : (long long)thr + v;     // probability of feedback x 2 thr
            for (int k = 0; k < per && w.empty(); ++k)
            {
                int const o = l * per + k;
                Cl const b = get(before, o), a = get(after, o);
                bool const typeI = (l == y) == (k % 2 == 0), out = clause_true(b, x);
                if (a == b && num < 2ll * thr) continue;
                if (num == 0) { w = fmt_(o, b, a, "must not get feedback"); break; }
                if (!fb(memo, b, x, out, typeI, R).count(a)) w = fmt_(o, b, a, (std::string("no legal result of Type ") + (typeI ? "I" : "II") + " feedback on a " + (out ? "true" : "false") + " clause").c_str());
            }
        }
        if (w.empty()) { if (opp_out) *opp_out = opp; return ""; }
        why = w;
    }
    return why;
}

// possible results of up to k feedbacks of one type on a clause (its output is not re-evaluated in between)
inline int min_feedbacks(Memo & memo, Cl const & b, Cl const & a, ivec const & x, bool out, bool typeI, Rules const & R, int maxk)
{
    std::set<Cl> cur{b};
    for (int k = 0; k <= maxk; ++k)
    {
        if (cur.count(a)) return k;
        std::set<Cl> nx;
        for (auto & c : cur) for (auto & d : fb(memo, c, x, out, typeI, R)) nx.insert(d);
        if (nx == cur) break;
        cur = nx;
    }
    return -1;
}
}

// Wide machines whose clauses hang on one literal each: f(state, sample, literal).  Automata are at -2
// but for literal p, included positively by clauses 0, 3, 4, 7.. and negated by the others (variant 1: both by
// clauses 1, 5, .., variant 2: all include a true literal elsewhere as well); the sample is one of three
// patterns, with both values of feature p.
inline std::vector<int> edges(int F, int unit)
{
    std::set<int> r;
    for (int q : {0, 1, 15, 16, 62, 63, 64, unit - 1, unit, unit + 1, unit + 63, unit + 64, 2 * unit - 1, 2 * unit, F - 66, F - 65, F - 64, F - 2, F - 1, F / 64 * 64 - 1, F / 64 * 64, F / 2}) if (q >= 0 && q < F) r.insert(q);
    return {r.begin(), r.end()};
}
template<class Fn> void lone_literals(Snap const & base, int F, std::vector<int> const & ps, int patterns, Fn f)
{
    int const C = base.rows / 2;
    for (int p : ps)
        for (int variant = 0; variant < 3; ++variant)
            for (int xs = 0; xs < patterns; ++xs)
                for (int v = 0; v < 2; ++v)
                {
                    ivec x(F);
                    for (int i = 0; i < F; ++i) x[i] = xs == 0 ? i / 3 % 2 : xs == 1 ? 1 : 0;
                    x[p] = v;
                    Snap s = base;
                    for (auto & r : s.ta) for (auto & v : r) v = -2;
                    int const q = (p + F / 2) % F;
                    for (int o = 0; o < C; ++o)
                    {
                        s.ta[2 * o + ((o + 1) / 2 % 2)][p] = 0;
                        if (variant == 1 && o % 4 == 1) s.ta[2 * o][p] = s.ta[2 * o + 1][p] = 0;
                        if (variant == 2 && q != p) s.ta[2 * o + !x[q]][q] = 0;
                    }
                    f(s, x, p);
                }
}
inline bool lone_true(Snap const & s, int o, ivec const & x, int p) { return !(x[p] ? s.ta[2 * o + 1][p] >= 0 : s.ta[2 * o][p] >= 0); }
// shapes and tile sizes that go with them
inline std::vector<std::tuple<int, int, int>> wide_shapes(bool bit)     // F, tile, jobs
{
    std::vector<std::tuple<int, int, int>> r;
    for (int tile : {16, 32, 64, 128})
    {
        int const u = bit ? 64 * tile : tile;
        for (int F : std::set<int>{u - 1, u, u + 1, u + 63, u + 65, 2 * u - 1, 2 * u, 2 * u + 1})
        {
            if (!vf::thorough() && F > 4400 && F != u + 1 && F != u) continue;
            r.push_back({F, tile, 1});
            if (F == u + 65 || (!bit && F == u + 1)) r.push_back({F, tile, 3});
        }
    }
    return r;
}

// Machines of many clauses, with automata and weights around every power of two that fits: a pattern for
// each `shift`; clause o is true of x unless (o + shift) % 3 == 0.
inline std::vector<long long> magnitudes(long long lo, long long hi)
{
    std::set<long long> r{lo, lo + 1, hi - 1, hi};
    for (int sign : {-1, 1})
        for (int b : {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 15, 16, 20, 24, 30, 31})
            for (int d = -2; d <= 2; ++d) r.insert(sign * (1ll << b) + d);
    for (int v : {100, 1000, 10000, 100000}) r.insert(v);
    std::vector<long long> v;
    for (auto q : r) if (q >= lo && q <= hi) v.push_back(q);
    return v;
}
inline void vast(Snap & s, ivec const & x, Cfg const & c, int shift)
{
    auto const vs = magnitudes(-(long long)c.N, (long long)c.N - 1), ws = magnitudes(1, c.maxw);
    int const C = s.rows / 2; size_t k = (size_t)shift * 17;
    for (int o = 0; o < C; ++o)
    {
        bool const out = (o + shift) % 3 != 0; bool any = false;
        for (size_t i = 0; i < x.size(); ++i)
            for (int n = 0; n < 2; ++n)
            {
                long long v = vs[(k += 7 + n) % vs.size()];
                bool const lit = n ? !x[i] : x[i];
                if (!lit && v >= 0) { if (out) v = -1 - v; else any = true; }
                s.ta[2 * o + n][i] = (int)v;
            }
        if (!out && !any) s.ta[2 * o + x[0]][0] = 0;       // includes a false literal
        if (c.weighted) s.w[o] = (uint32_t)(ws[(k += 5) % ws.size()] - 1);
    }
}
