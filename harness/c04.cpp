// C04: the step relation of regressors. From every state of small machines and under every
// outcome of the random draws, the result of training on one (sample, response) pair is legal
// (soundness), and the legal results are exactly the results that occur (completeness).
#include "steps.hpp"
using namespace vf;
using namespace ref;

// MAE loss: the possible numbers of feedbacks for error e
static std::pair<int, int> amount(int C, long long e, long long T)
{
    long long const num = 2 * C * std::llabs(e);     // 2 C |e| / T  against 1
    if (num < T) return {0, e ? 1 : 0};
    // round(C |e| / T), ties either way
    int lo = (int)((num + T - 1) / (2 * T)), hi = (int)((num + T) / (2 * T));
    if (num % (2 * T) == T) lo = std::max(1, hi - 1);
    return {std::min(lo, C), std::min(hi, C)};
}

template<class E> std::string legal(Snap const & s, Snap const & a, ivec const & x, int y, Cfg const & cfg, Rules const & R, Memo & memo)
{
    int const C = s.rows / 2, v = response(s, cfg.thr, x, 1), e = v - y;
    if (e == 0) return s == a ? "" : "nothing to correct, but the state changed";
    auto [lo, hi] = amount(C, e, cfg.thr);
    if (cfg.bm) { lo = 0; hi = C; }
    int sum = 0; bool must = true;
    for (int o = 0; o < C; ++o)
    {
        Cl const b = get(s, o), g = get(a, o);
        bool const out = clause_true(b, x), t1 = e < 0;
        int k = min_feedbacks(memo, b, g, x, out, t1, R, hi);
        if (k < 0) return fmt_(o, b, g, fmt("not the result of up to %d Type %s feedbacks on a %s clause", hi, t1 ? "I" : "II", out ? "true" : "false").c_str());
        sum += k;
        if (fb(memo, b, x, out, t1, R).count(b)) must = false;
    }
    if (sum > hi) return fmt("at least %d feedbacks were given, at most %d are due", sum, hi);
    if (must && lo > 0 && sum == 0) return "feedback is due, but nothing changed";
    return "";
}

static std::string where(Snap const & s, ivec const & x, int y, Cfg const & c) { return fmt("x=%s y=%d response=%d T=%d state %s", show(x).c_str(), y, response(s, c.thr, x, 1), c.thr, s.show().c_str()); }

// exact set of results of a step
static std::map<std::string, Snap> results(Snap const & s, ivec const & x, int y, Cfg const & cfg, Rules const & R, Memo & memo)
{
    int const C = s.rows / 2, e = response(s, cfg.thr, x, 1) - y;
    auto [lo, hi] = amount(C, e, cfg.thr);
    std::vector<char> out(C);
    for (int o = 0; o < C; ++o) out[o] = clause_true(get(s, o), x);
    std::map<std::string, Snap> cur{{s.key(), s}};
    std::map<std::string, Snap> res;
    for (int k = 0; k <= hi; ++k)
    {
        if (k >= lo) for (auto & p : cur) res.insert(p);
        if (k == hi) break;
        std::map<std::string, Snap> nx;
        for (auto & p : cur)
            for (int o = 0; o < C; ++o)
                for (auto & d : fb(memo, get(p.second, o), x, out[o], e < 0, R)) { Snap t = p.second; set(t, o, d); nx.emplace(t.key(), t); }
        cur = std::move(nx);
    }
    return res;
}

// every joint state of C clauses over F features; exact sets of results
template<class E> void exact(Cfg cfg, int F, unsigned D, long long part, long long parts)
{
    Stepper<E> S(cfg, F, 0);
    auto R = rules(cfg, F, Tr<E>::bit);
    int const C = cfg.clauses / 2, V = 2 * cfg.N;
    long long total = 1; for (int i = 0; i < 2 * C * F; ++i) total *= V;
    std::vector<Memo> memo(1 << F);
    Seen seen;
    std::vector<uint32_t> ws = cfg.weighted ? std::vector<uint32_t>{0, 1, (uint32_t)cfg.maxw - 1} : std::vector<uint32_t>{0};
    for (long long v = part; v < total; v += parts)
        for (auto w : ws)
        {
            Snap s = S.base();
            long long q = v;
            for (int r = 0; r < 2 * C; ++r) for (int i = 0; i < F; ++i) { s.ta[r][i] = (int)(q % V) - cfg.N; q /= V; }
            for (size_t o = 0; o < s.w.size(); ++o) s.w[o] = o ? (w + 1) % cfg.maxw : w;
            seen.insert(s.key());
            for (int xv = 0; xv < 1 << F; ++xv)
            {
                auto x = bits(xv, F);
                for (int y = 0; y <= cfg.thr; ++y)
                {
                    std::map<std::string, Snap> got;
                    std::vector<unsigned> pre;
                    draw_tree({0u, 0xffffffffu}, D, pre, [&](std::vector<unsigned> const & iv)
                    {
                        auto a = S.run(s, x, y, iv, 0, {}, NO);
                        if (got.emplace(a.key(), a).second)
                        {
                            auto why = legal<E>(s, a, x, y, cfg, R, memo[xv]);
                            CHECK(why.empty(), "%s: %s, next %s", where(s, x, y, cfg).c_str(), why.c_str(), a.show().c_str());
                        }
                        traces();
                        return S.idr;
                    });
                    auto want = results(s, x, y, cfg, R, memo[xv]);
                    for (auto & g : got) CHECK(want.count(g.first), "%s: illegal result %s", where(s, x, y, cfg).c_str(), g.second.show().c_str());
                    CHECK(got.size() == want.size(), "%s: only %zu of %zu possible results occur", where(s, x, y, cfg).c_str(), got.size(), want.size());
                    count("results", want.size());
                }
            }
        }
}

// more clauses: legality under many draws, and every clause can be picked
template<class E> void many(Cfg cfg, int C, int F, unsigned D)
{
    cfg.clauses = 2 * C;
    Stepper<E> S(cfg, F, 0);
    auto R = rules(cfg, F, Tr<E>::bit);
    std::vector<Memo> memo(1 << F);
    std::vector<unsigned> A;
    for (int i = 0; i < C; ++i) A.push_back(i);
    A.push_back(0xffffffffu);
    Seen seen;
    for (int v = 0; v < 12; ++v)
    {
        Snap s = S.base();
        for (int r = 0; r < 2 * C; ++r) for (int i = 0; i < F; ++i) s.ta[r][i] = (v < 2 ? -1 - v % cfg.N : ((r * 7 + i * 3 + v * 5 + r * v) % (2 * cfg.N)) - cfg.N);
        for (size_t o = 0; o < s.w.size(); ++o) s.w[o] = (o + v) % 3;
        seen.insert(s.key());
        for (int xv = 0; xv < 1 << F; ++xv)
        {
            auto x = bits(xv, F);
            for (int y = 0; y <= cfg.thr; ++y)
            {
                std::set<int> picked;
                auto one = [&](std::vector<unsigned> const & iv, unsigned rot)
                {
                    auto a = S.run(s, x, y, iv, rot, {}, NO);
                    auto why = legal<E>(s, a, x, y, cfg, R, memo[xv]);
                    CHECK(why.empty(), "%s: %s, next %s", where(s, x, y, cfg).c_str(), why.c_str(), a.show().c_str());
                    for (int o = 0; o < C; ++o) if (!(get(a, o) == get(s, o))) picked.insert(o);
                    traces();
                    return S.idr;
                };
                std::vector<unsigned> pre;
                draw_tree(A, D, pre, [&](auto & iv){ return one(iv, 0); });
                for (unsigned rot = 0; rot < 4u * C; ++rot) { one({}, rot); one({}, 0xfff00000u + rot); one({}, 0x7ffffff0u + rot); }
                int const e = response(s, cfg.thr, x, 1) - y;
                if (e && D) for (int o = 0; o < C; ++o)
                {
                    auto & r = fb(memo[xv], get(s, o), x, clause_true(get(s, o), x), e < 0, R);
                    bool const changes = r.size() > 1 || !r.count(get(s, o));
                    CHECK(!changes || picked.count(o), "%s: clause %d is never picked", where(s, x, y, cfg).c_str(), o);
                    count("clauses picked");
                }
            }
        }
    }
}

// one clause over wide samples, a certain single feedback, coin always or never
template<class E> void wide(Cfg cfg, int F, bool coin)
{
    cfg.clauses = 2; cfg.s = coin ? 1.f : 1e9f;
    int const N = cfg.N;
    Rules R{N, cfg.boost, cfg.weighted, cfg.maxw, 0, 0, Tr<E>::bit};
    ivec all(F, coin);
    int vals[6] = {-N, -N + 1 < -1 ? -N + 1 : -1, -1, 0, N > 1 ? 1 : 0, N - 1};
    Seen seen;
    for (int w : cfg.weighted ? std::vector<int>{1, 2, 3} : std::vector<int>{1})
    {
        Cfg up = cfg, down = cfg; up.thr = 4 * w; down.thr = w;
        Stepper<E> SU(up, F, 0), SD(down, F, 0);
        for (int dir = 0; dir < 2; ++dir)       // 0: too low, Type I; 1: too high, Type II
            for (int shift = 0; shift < 6; ++shift)
                for (int xs = 0; xs < 4; ++xs)
                {
                    auto & S = dir ? SD : SU;
                    ivec x(F);
                    for (int i = 0; i < F; ++i) x[i] = xs == 0 ? i % 2 : xs == 1 ? (i / 3) % 2 : xs == 2 ? 1 : 0;
                    Snap s = S.base();
                    for (int i = 0; i < F; ++i)
                    {
                        int p = vals[(i + shift) % 6], n = vals[(i * 5 + shift) % 6];
                        if (shift % 2 == 0 || dir) { if (!x[i] && p >= 0) p = -1 - p; if (x[i] && n >= 0) n = -1 - n; }
                        s.ta[0][i] = p; s.ta[1][i] = n;
                    }
                    if (cfg.weighted) s.w[0] = w - 1;
                    seen.insert(s.key());
                    auto a = S.run(s, x, dir ? 0 : S.cfg.thr, {}, coin ? 0u : 0xf0000000u, {}, NO);
                    traces();
                    Cl b = get(s, 0), g = get(a, 0), want = b;
                    bool const out = clause_true(b, x);
                    if (dir) { CHECK(out, "harness: clause must be true"); want = typeII1(b, x, R); }
                    else if (out) want = typeI1_with(b, x, all, all, R);
                    else if (coin && Tr<E>::bit)
                    {
                        int dp = 0, dn = 0;
                        for (int i = 0; i < F; ++i)
                        {
                            CHECK(g.pos[i] <= b.pos[i] && g.neg[i] <= b.neg[i] && g.pos[i] >= -N && g.neg[i] >= -N, "F=%d literal %d was not weakened: %d/%d -> %d/%d", F, i, b.pos[i], b.neg[i], g.pos[i], g.neg[i]);
                            dp += b.pos[i] - g.pos[i]; dn += b.neg[i] - g.neg[i];
                        }
                        CHECK(dp <= F && dn <= F, "F=%d: more than the %d coin hits of each polarity: %d/%d", F, F, dp, dn);
                        CHECK(g.w == b.w, "F=%d weight of a false clause changed", F);
                        continue;
                    }
                    else for (int i = 0; i < F; ++i) { want.pos[i] = std::max(-N, b.pos[i] - all[i]); want.neg[i] = std::max(-N, b.neg[i] - all[i]); }
                    if (!(g == want))
                    {
                        int i = 0; while (i < F && g.pos[i] == want.pos[i] && g.neg[i] == want.neg[i]) ++i;
                        if (i == F) fail("F=%d: weight %lld -> %lld, not %lld (Type %s, clause %d)", F, b.w, g.w, want.w, dir ? "II" : "I", (int)out);
                        fail("F=%d x%d literal %d (x=%d): %d/%d -> %d/%d, not %d/%d (Type %s, clause %d, coin %d)", F, xs, i, x[i], b.pos[i], b.neg[i], g.pos[i], g.neg[i], want.pos[i], want.neg[i], dir ? "II" : "I", (int)out, (int)coin);
                    }
                    count("wide literals", 2 * F);
                }
    }
}

// wide machines, clauses that hang on a single literal at every kind of position, all tile sizes
template<class E> void lone(Cfg cfg, int F)
{
    cfg.s = 1e9f; cfg.N = 3; cfg.thr = 1000000; cfg.clauses = 8; cfg.loss = "MAE"; cfg.weighted = true;
    Stepper<E> S(cfg, F, 0);
    int const C = 4;
    Rules R{cfg.N, cfg.boost, cfg.weighted, cfg.maxw, 0, 0, Tr<E>::bit};
    ivec none(F, 0);
    Seen seen;
    Snap base = S.base(); for (auto & w : base.w) w = 200000;       // true clauses vote 200001
    lone_literals(base, F, edges(F, Tr<E>::bit ? 64 * cfg.tile : cfg.tile), F > 4400 && !thorough() ? 1 : 2, [&](Snap const & s, ivec const & x, int p)
    {
        seen.insert(s.key());
        int t = 0;
        for (int o = 0; o < C; ++o) t += lone_true(s, o, x, p);
        for (int up = 0; up < 2; ++up)
        {
            auto a = S.run(s, x, up ? 1000000 : 0, {}, 0xf0000000u, {}, NO);
            traces();
            for (int o = 0; o < C; ++o)
            {
                Cl b = get(s, o), g = get(a, o);
                bool const out = lone_true(s, o, x, p);
                std::set<Cl> ok_{b}; Cl c = b;
                for (int k = 0; k < C; ++k) { if (out) c = up ? typeI1_with(c, x, none, none, R) : typeII1(c, x, R); ok_.insert(c); }
                CHECK(ok_.count(g), "F=%d tile=%d jobs=%d: clause %d includes %sliteral %d, x there is %d: wrong result of Type %s feedback", F, cfg.tile, cfg.jobs, o, s.ta[2 * o][p] >= 0 ? "" : "negated ", p, x[p], up ? "I" : "II");
            }
            // the error tells the votes
            auto b = S.run(s, x, 200001 * t, {}, 0xf0000000u, {}, NO);
            CHECK(b == s, "F=%d tile=%d jobs=%d literal %d: the votes are not what they should be", F, cfg.tile, cfg.jobs, p);
        }
    });
}

// Several steps of one estimator, in one call and in several: the result must be that of a sequence of
// legal steps in some order, each on the machine as the previous ones left it.
template<class E> void histories(Cfg cfg, int C, int F, std::vector<ivec> const & X, ivec const & y, unsigned epochs, int shape, unsigned D)
{
    cfg.clauses = 2 * C;
    Stepper<E> S(cfg, F, 0);
    auto R = rules(cfg, F, Tr<E>::bit);
    int const n = (int)X.size();
    std::vector<Memo> memo(n);
    auto sx = mk<typename Tr<E>::Sample>(X);
    Seen seen;
    for (int v = 0; v < 8; ++v)
    {
        Snap s = S.base();
        for (int r = 0; r < 2 * C; ++r) for (int i = 0; i < F; ++i) s.ta[r][i] = v < 2 ? -1 - v % cfg.N : (r * 7 + i * 3 + v * 5 + r * v) % (2 * cfg.N) - cfg.N;
        for (size_t o = 0; o < s.w.size(); ++o) s.w[o] = (o + v) % 3;
        seen.insert(s.key());
        std::map<std::string, Snap> cur{{s.key(), s}};
        std::vector<std::map<std::string, std::map<std::string, Snap>>> memo_r(n);
        for (unsigned e = 0; e < epochs; ++e)
        {
            std::map<std::string, Snap> ends;
            ivec ix(n); for (int i = 0; i < n; ++i) ix[i] = i;
            do
            {
                auto c = cur;
                for (int i : ix)
                {
                    std::map<std::string, Snap> nx;
                    for (auto & p : c)
                    {
                        auto it = memo_r[i].find(p.first);
                        if (it == memo_r[i].end()) it = memo_r[i].emplace(p.first, results(p.second, X[i], y[i], cfg, R, memo[i])).first;
                        nx.insert(it->second.begin(), it->second.end());
                    }
                    c = std::move(nx);
                }
                ends.insert(c.begin(), c.end());
            } while (std::next_permutation(ix.begin(), ix.end()));
            cur = std::move(ends);
        }
        count("possible ends", cur.size());
        std::set<std::string> got;
        for (unsigned rot : {0u, 1u, 5u, 0xfffff000u})
        {
            std::vector<unsigned> pre;
            draw_tree({0u, 1u, 0xffffffffu}, rot ? D / 2 : D, pre, [&](std::vector<unsigned> const & iv)
            {
                auto & st = S.st;
                put(st, s); load_igen(st, iv, rot); load_fgen(st, {}, NO);
                E est(st);
                if (shape) for (unsigned e = 0; e < epochs; ++e) ok(do_pfit(est, sx, y, 0, 1), "partial_fit");
                else ok(do_pfit(est, sx, y, 0, epochs), "partial_fit");
                auto p = est.clone_state();
                auto a = snap(*p);
                CHECK(cur.count(a.key()), "training on X=%s%s%s y=%s for %u epochs%s: no sequence of legal steps leads from %s to %s", show(X[0]).c_str(), n > 1 ? "/" : "", n > 1 ? show(X[1]).c_str() : "", show(y).c_str(), epochs, shape ? " in as many calls" : "", s.show().c_str(), a.show().c_str());
                got.insert(a.key());
                traces(); transitions(n * epochs);
                return idraws(*p);
            });
        }
        count("ends reached", got.size());
    }
}

// many clauses, automata, weights and responses of all magnitudes; the coin never falls
template<class E> void large(Cfg cfg, int C, int F)
{
    cfg.s = 1e9f; cfg.clauses = 2 * C;
    Stepper<E> S(cfg, F, 0);
    auto R = rules(cfg, F, Tr<E>::bit); R.lo = R.hi = 0;
    ivec const none(F, 0);
    Seen seen;
    for (int shift = 0; shift < 12; shift += !thorough() && (long)C * F > 10000 ? 3 : 1)
    {
        ivec x(F);
        for (int i = 0; i < F; ++i) x[i] = shift % 4 == 0 ? i % 2 : shift % 4 == 1 ? 1 : shift % 4 == 2 ? 0 : (i / 2) % 2;
        Snap s = S.base();
        vast(s, x, cfg, shift);
        seen.insert(s.key());
        int const v = response(s, cfg.thr, x, 1);
        std::set<int> ys;
        for (long long y : {0ll, (long long)cfg.thr, (long long)cfg.thr / 2, v - 1ll, v + 1ll, (long long)v, v - 300ll, v + 300ll}) if (y >= 0 && y <= cfg.thr) ys.insert((int)y);
        for (int y : ys)
        {
            int const e = v - y;
            auto [lo, hi] = amount(C, e, cfg.thr);
            bool const due = lo > 0;
            if (cfg.bm) { lo = 0; hi = C; }
            else if (hi) { if (lo > 1) --lo; hi = std::min(C, hi + 1); }      // rounding is C19's
            std::set<int> picked; bool const all = !cfg.bm && y == *ys.begin() && C <= 300 && (C <= 17 || shift < 1);
            for (unsigned d = 0; d < (all ? 2u * C : 3u); ++d)
            {
                auto a = S.run(s, x, y, {}, 0xf0000000u + d, {}, NO);
                traces();
                if (!e) { CHECK(s == a, "C=%d T=%d y=%d: nothing to correct, but the state changed", C, cfg.thr, y); continue; }
                long long given = 0; bool open = false;
                for (int o = 0; o < C; ++o)
                {
                    Cl const b = get(s, o), g = get(a, o);
                    bool const out = clause_true(b, x);
                    Cl cur = b; int k = 0; bool stuck = false;
                    for (;; ++k)
                    {
                        Cl nx = !out ? cur : e < 0 ? typeI1_with(cur, x, none, none, R) : typeII1(cur, x, R);
                        stuck = nx == cur;
                        if (cur == g || stuck || k == hi) break;
                        cur = nx;
                    }
                    CHECK(cur == g, "clause %d of %d (response %d, T=%d, y=%d): %s -> %s is not the result of up to %d Type %s feedbacks on a %s clause, %s", o, C, v, cfg.thr, y, b.show().c_str(), g.show().c_str(), hi, e < 0 ? "I" : "II", out ? "true" : "false", cur.show().c_str());
                    given += k; open |= stuck;
                    if (k) picked.insert(o);
                }
                CHECK(given <= hi, "C=%d: %lld feedbacks were given, at most %d are due (response %d, T=%d, y=%d)", C, given, hi, v, cfg.thr, y);
                CHECK(open || given >= lo, "C=%d: only %lld feedbacks were given, at least %d are due (response %d, T=%d, y=%d)", C, given, lo, v, cfg.thr, y);
                count("clauses of large machines", C);
            }
            if (all && due && !cfg.bm)
                for (int o = 0; o < C; ++o)
                {
                    Cl const b = get(s, o); if (!clause_true(b, x)) continue;
                    Cl const nx = e < 0 ? typeI1_with(b, x, none, none, R) : typeII1(b, x, R);
                    CHECK(nx == b || picked.count(o), "clause %d of %d is never picked (response %d, T=%d, y=%d)", o, C, v, cfg.thr, y);
                }
        }
    }
}

void setup()
{
    for_regressors([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        for (auto [F, tile, jobs] : wide_shapes(Tr<E>::bit))
            add(fmt("%s lone literals F=%d tile=%d jobs=%d", Tr<E>::name, F, tile, jobs), [=, F = F, tile = tile, jobs = jobs]{ Cfg c; c.tile = tile; c.jobs = jobs; c.boost = F % 2; lone<E>(c, F); });
        for (int C : {1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1025})
            for (int N : {100, 128, 129, 40000, 2147483647})
            {
                Cfg c; c.N = N; c.boost = N % 2; c.jobs = C % 3 ? 1 : 2; c.loss = "MAE";
                add(fmt("%s large C=%d N=%d", Tr<E>::name, C, N), [=]
                {
                    for (int m : {0, 300, 70000, 2147483647}) for (int thr : {2, 50, 127, 128, 40000, 1000000, 2147483647}) for (int bm = 0; bm < 2; ++bm)
                    {
                        Cfg d = c; d.weighted = m; d.maxw = m ? m : 2147483647; d.thr = thr; d.bm = bm;
                        if (C > 200 && !thorough() && thr != 50 && thr != 1000000) continue;
                        large<E>(d, C, C > 200 ? 2 : 5);
                    }
                });
            }
        for (int F : {1023, 4097, 8193, 16383, 16385, 32769, 65537, 140000})
            for (int N : {1, 129, 2147483647})
            {
                Cfg c; c.N = N; c.boost = N % 2; c.jobs = F % 2 ? 2 : 1; c.weighted = true; c.maxw = 300; c.tile = N == 1 ? 128 : 16; c.loss = "MAE";
                add(fmt("%s large F=%d N=%d", Tr<E>::name, F, N), [=]{ Cfg d = c; for (int thr : {2, 1000000}) { d.thr = thr; large<E>(d, 4, F); } });
            }
        for (int C : {17000, 33000, 66000})
            add(fmt("%s large C=%d", Tr<E>::name, C), [=]{ Cfg d; d.weighted = true; d.maxw = 300; d.N = 100; d.loss = "MAE"; for (int thr : {50, 100000000}) { d.thr = thr; large<E>(d, C, 1); } });
        for (int boost = 0; boost < 2; ++boost)
            for (int weighted = 0; weighted < 2; ++weighted)
            {
                Cfg c; c.boost = boost; c.weighted = weighted; c.maxw = weighted ? 3 : 2147483647; c.loss = "MAE";
                std::string f = fmt("%s boost=%d weighted=%d", Tr<E>::name, boost, weighted);
                for (float s : {1.f, 2.f, 1e6f}) for (int N : {1, 2, 3})
                {
                    c.clauses = 2; c.N = N; c.s = s; c.thr = 3;
                    add(fmt("%s exact C=1 F=1 N=%d s=%g", f.c_str(), N, s), [=]{ exact<E>(c, 1, 8, 0, 1); });
                }
                for (float s : {1.f, 1.6f, 2.f, 3.f})
                {
                    c.clauses = 2; c.N = 1; c.s = s; c.thr = 2;
                    for (int k = 0; k < 2; ++k) add(fmt("%s exact C=1 F=2 N=1 s=%g %d", f.c_str(), s, k), [=]{ exact<E>(c, 2, 10, k, 2); });
                }
                for (float s : {1.f, 2.f, 1e6f})
                {
                    c.clauses = 4; c.N = 1; c.s = s; c.thr = s == 2.f ? 3 : 2;
                    int const parts = s == 2.f ? 4 : 2;
                    for (int k = 0; k < parts; ++k) add(fmt("%s exact C=2 F=1 N=1 s=%g %d", f.c_str(), s, k), [=]{ exact<E>(c, 1, 12, k, parts); });
                }
                if (thorough())
                {
                    c.clauses = 4; c.N = 2; c.s = 2.f; c.thr = 3;
                    for (int k = 0; k < 32; ++k) add(fmt("%s exact C=2 F=1 N=2 %d", f.c_str(), k), [=]{ exact<E>(c, 1, 12, k, 32); });
                    c.clauses = 2; c.N = 2; c.s = 1.6f;
                    for (int k = 0; k < 32; ++k) add(fmt("%s exact C=1 F=2 N=2 %d", f.c_str(), k), [=]{ exact<E>(c, 2, 12, k, 32); });
                }
                for (int bm = 0; bm < 2; ++bm)
                    for (int C : {3, 4, 5})
                        for (int thr : {1, 2, 5})
                        {
                            c.N = 2; c.s = 2.f; c.thr = thr; c.bm = bm;
                            add(fmt("%s many C=%d thr=%d bm=%d", f.c_str(), C, thr, bm), [=]{ many<E>(c, C, 1, bm ? 1 : tiered(2, 4)); });
                            if (thorough()) { c.N = 1; add(fmt("%s many C=%d F=2 thr=%d bm=%d", f.c_str(), C, thr, bm), [=]{ many<E>(c, C, 2, bm ? 1 : 2); }); }
                        }
                c.bm = false;
                for (int shape = 0; shape < 2; ++shape) for (float sp : {1.f, 2.f}) for (int N : {1, 3}) for (int C : {1, 2})
                {
                    Cfg d = c; d.s = sp; d.N = N; d.thr = C == 1 ? 2 : 3; if (d.weighted) d.maxw = 4;
                    auto g = fmt("%s histories C=%d s=%g N=%d calls=%d", f.c_str(), C, sp, N, shape);
                    unsigned const D = tiered(5, 8);
                    add(g + " one sample", [=]{ histories<E>(d, C, 2, {{0, 1}}, {1}, 3, shape, D); });
                    add(g + " two samples", [=]{ histories<E>(d, C, 2, {{0, 1}, {1, 1}}, {d.thr, 0}, C == 1 ? 2 : 1, shape, D); });
                    if (!shape) add(g + " three samples", [=]{ histories<E>(d, C, 1, {{0}, {1}, {1}}, {d.thr, 0, 1}, 1, shape, D); });
                }
                std::vector<int> Fs;
                for (int F = 1; F <= 20; ++F) Fs.push_back(F);
                for (int F : {31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 192, 255, 256, 257, 500, 511, 512, 513, 640}) Fs.push_back(F);
                for (int coin = 0; coin < 2; ++coin)
                    for (auto [ct, N] : {std::pair<char const *, int>{"int8", 3}, {"int16", 3}, {"int32", 1}})
                        add(fmt("%s wide coin=%d %s N=%d", f.c_str(), coin, ct, N), [=]{ Cfg d = c; d.ctype = ct; d.N = N; for (int F : Fs) wide<E>(d, F, coin); });
            }
    });
}
