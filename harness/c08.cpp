// C08: parallel clause evaluation under controlled thread schedules.
//
// Every operation that evaluates clauses is run with 1 job (the reference) and then with 2..8 jobs
// under a runtime that grants every team size, starts the workers in every order, and preempts a
// worker at every access to shared memory up to a bound.  In every execution no two workers may
// touch the same byte if one writes it, and the results must be those of 1 job.
#include "glue.hpp"
#include "tsrt.hpp"
#include <sched.h>
using namespace vf;

template<class E> struct Machine
{
    using State = typename Tr<E>::State; using S = typename Tr<E>::Sample;
    Cfg c; int F, L; State st; std::vector<ivec> X; ivec y; std::vector<S> sx; std::vector<S> one;

    Machine(Cfg const & c_, int F, int L, unsigned pat) : c(c_), F(F), L(L), st(fitted_state<E>(c, F, L))
    {
        // automata: clauses with no, one, two and many included literals in every position class
        auto b = snap(st); unsigned s = 7 + pat * 131;
        for (int r = 0; r < b.rows; ++r)
            for (int f = 0; f < F; ++f)
            {
                s = s * 1664525u + 1013904223u;
                bool const inc = pat == 0 ? false : pat == 1 ? (r / 2 % 3 != 0 && f == (r * 7 + F - 1) % F && r % 2 == 0) : (s >> 28) == 0 && r % 5;
                b.ta[r][f] = inc ? 0 : -1;
            }
        for (size_t i = 0; i < b.w.size(); ++i) b.w[i] = i % 3;
        put(st, b);
        for (int i = 0; i < 5; ++i)
        {
            ivec x(F);
            for (int f = 0; f < F; ++f) { s = s * 1664525u + 1013904223u; x[f] = i == 0 ? 0 : i == 1 ? 1 : s >> 27 & 1; }
            X.push_back(x); y.push_back(Tr<E>::cls ? i % L : i * c.thr / 4);
        }
        sx = mk<S>(X); one = {sx[2]};
        // outputs that are not written show
        for (auto & v : st.cache.clause_output) v = 77;
    }
};

struct Result
{
    ivec pred; std::vector<ivec> scores; double acc = 0; Snap after; ivec outputs; unsigned ii = 0, fi = 0;
    bool operator==(Result const & o) const { return pred == o.pred && scores == o.scores && acc == o.acc && after == o.after && outputs == o.outputs && ii == o.ii && fi == o.fi; }
};

enum Op { PREDICT1, PREDICT, DECIDE1, DECIDE, EVAL, PFIT1, PFIT, FIT, NOPS };
static char const * const opname[] = {"predict(1)", "predict", "decision_function(1)", "decision_function", "evaluate", "partial_fit(1)", "partial_fit", "fit"};

template<class E> Result run(Machine<E> & m, int op, int jobs, int tile)
{
    auto st = m.st;
    st.m_params["n_jobs"] = jobs; st.m_params["clause_output_tile_size"] = tile;
    E e(st);
    Result r;
    transitions();
    if (op == PREDICT1) r.pred = {(int)take(e.predict(m.sx[2]), "predict")};
    else if (op == PREDICT) r.pred = to_ivec(take(e.predict(m.sx), "predict"));
    else if (op == PFIT1) ok(do_pfit(e, m.one, ivec{m.y[2]}, m.L, 1), "partial_fit");
    else if (op == PFIT) ok(do_pfit(e, m.sx, m.y, m.L, 1), "partial_fit");
    else if (op == FIT) ok(do_fit(e, m.sx, m.y, m.L, 1), "fit");
    if constexpr (Tr<E>::cls)
    {
        if (op == DECIDE1) r.scores = {to_ivec(take(e.decision_function(m.sx[3]), "decision_function"))};
        else if (op == DECIDE) { auto v = take(e.decision_function(m.sx), "decision_function"); for (auto & q : v) r.scores.push_back(to_ivec(q)); }
        else if (op == EVAL) r.acc = take(e.evaluate(m.sx, m.y), "evaluate");
    }
    auto p = e.clone_state();
    r.after = snap(*p); r.outputs = ivec(p->cache.clause_output.begin(), p->cache.clause_output.end());
    r.ii = p->igen.index; r.fi = p->fgen.index;
    return r;
}

// one worker runs at a time: keep them on one processor
static int pin()
{
    cpu_set_t all, one;
    if (sched_getaffinity(0, sizeof all, &all)) return 0;
    int want = me() % std::max(1, CPU_COUNT(&all));
    CPU_ZERO(&one);
    for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all) && want-- == 0) CPU_SET(i, &one);
    sched_setaffinity(0, sizeof one, &one);
    return 1;
}
// one execution under the given schedule
template<class E> rt::Report check(Machine<E> & m, int op, int jobs, int tile, Result const & want, rt::Conf const & conf, Seen & seen)
{
    std::string o; for (int t : conf.order) o += std::to_string(t);
    std::string pr; for (auto & p : conf.preempts) pr += fmt(" [at access %ld to %d]", p.step, p.to);
    auto const what = fmt("F=%d jobs=%d granted=%d tile=%d %s order=%s%s", m.F, jobs, conf.team ? conf.team : jobs, tile, opname[op], o.c_str(), pr.c_str());
    note("%s", what.c_str());
    static int const pinned = pin();
    (void)pinned;
    rt::begin(conf);
    Result r;
    try { r = run(m, op, jobs, tile); } catch (...) { rt::end(); throw; }
    auto rep = rt::end();
    traces(); count("schedules executed");
    count("shared and private accesses compared", rep.accesses);
    count("worker switches", rep.switches);
    seen.insert(fmt("%d/%d/%d/", op, jobs, conf.team) + o + pr + r.after.key());
    CHECK(rep.conflict.empty(), "%s: %s", what.c_str(), rep.conflict.c_str());
    CHECK(r == want, "%s: result differs from that of a single job", what.c_str());
    return rep;
}

static std::vector<std::vector<int>> orders(int n)
{
    std::vector<std::vector<int>> r; std::vector<int> o(n);
    std::iota(o.begin(), o.end(), 0);
    if (n <= 4) { do r.push_back(o); while (std::next_permutation(o.begin(), o.end())); }
    else
    {
        for (int k = 0; k < n; ++k) { r.push_back(o); std::rotate(o.begin(), o.begin() + 1, o.end()); }
        std::reverse(o.begin(), o.end()); r.push_back(o);
    }
    return r;
}

template<class E> bool applies(int op) { return Tr<E>::cls || (op != DECIDE && op != DECIDE1 && op != EVAL); }

template<class E> void orders_case(Cfg c, int F, int L, int tile, std::vector<int> const & jobs)
{
    Seen seen; long par = 0; int team = 0;
    for (unsigned pat = thorough() ? 0 : 1; pat < 3; ++pat)
    {
        Machine<E> m(c, F, L, pat);
        for (int op = 0; op < NOPS; ++op)
        {
            if (!applies<E>(op)) continue;
            auto const want = run(m, op, 1, 16);
            for (int j : jobs)
                for (int granted = j; granted >= 1; granted = granted > 4 ? granted / 2 : granted - 1)
                    for (auto & o : orders(granted))
                    {
                        rt::Conf cf; cf.team = granted; cf.order = o;
                        auto rep = check(m, op, j, tile, want, cf, seen);
                        par += rep.parallel_regions; team = std::max(team, rep.max_team);
                        if (granted == j && j > 1) count("parallel regions with every requested worker", rep.parallel_regions);
                        if (op == FIT || op == PFIT) if (granted > 3 || (!thorough() && granted == 3 && o[0] == 1)) break;
                    }
        }
    }
    count("parallel regions", par);
}

// every preemption, up to `bound` of them, at every shared access of every region
template<class E> void preempt_case(Cfg c, int F, int L, int op, int jobs, int bound, unsigned pat)
{
    Seen seen;
    Machine<E> m(c, F, L, pat);
    auto const want = run(m, op, 1, 16);
    rt::Conf cf;
    auto base = check(m, op, jobs, 16, want, cf, seen);
    long const regions = (long)base.steps.size();
    // the regions of one operation are alike: all of the first two and the last
    for (long r = 0; r < regions; ++r)
    {
        if (r > 1 && r < regions - 1) continue;
        std::function<void(std::vector<rt::Preempt>, long, long)> go = [&](std::vector<rt::Preempt> p, long from, long steps)
        {
            if ((int)p.size() == bound) return;
            for (long k = from; k < steps; ++k)
                for (int to = 0; to < jobs; ++to)
                {
                    auto q = p; q.push_back({k, to});
                    rt::Conf f; f.region = r; f.preempts = q;
                    auto rep = check(m, op, jobs, 16, want, f, seen);
                    count("preemption schedules");
                    go(q, k + 1, r < (long)rep.steps.size() ? rep.steps[r] : 0);
                }
        };
        go({}, 0, base.steps[r]);
    }
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string const n = Tr<E>::name;
        bool const cls = Tr<E>::cls;
        for (int tile : {16, 32, 64, 128})
            for (int F : Tr<E>::bit ? (tile == 16 ? ivec{1, 63, 64, 65, 1023, 1025} : tile == 32 ? ivec{2, 2047, 2049} : tile == 64 ? ivec{3, 4097} : ivec{65, 8193})
                                    : (tile == 16 ? ivec{1, 2, 15, 16, 17, 33} : tile == 32 ? ivec{31, 32, 65} : tile == 64 ? ivec{63, 65} : ivec{127, 129, 257}))
                for (int clauses : tiered<ivec>({4, 12}, {4, 8, 12}))
                    if (thorough() || F < 2000 || clauses == 4)
                    add(fmt("%s/orders/tile%d/F%d/clauses%d", n.c_str(), tile, F, clauses), [=]()
                    {
                        Cfg c; c.clauses = clauses; c.thr = 3; c.weighted = clauses >= 8; c.N = 3;
                        orders_case<E>(c, F, cls ? 3 : 1, tile, thorough() ? std::vector<int>{2, 3, 4, 5, 7, 8} : clauses == 4 ? std::vector<int>{2, 3} : std::vector<int>{4, 8});
                    });
        for (int clauses : {20, 32, 36, 64, 68, 100, 132, 260})
            for (int F : {1, 17}) add(fmt("%s/orders/F%d/clauses%d", n.c_str(), F, clauses), [=]()
            {
                Cfg c; c.clauses = clauses; c.thr = 30; c.weighted = clauses % 8; c.N = 3;
                orders_case<E>(c, F, cls ? (clauses % 3 ? 2 : 5) : 1, 16, F == 1 ? std::vector<int>{2, 7} : std::vector<int>{3, 8});
            });
        for (int op = 0; op < NOPS; ++op)
            if (applies<E>(op))
                for (int F : {2, 17})
                    for (unsigned pat : {1u, 2u})
                    {
                        int const bound = thorough() ? (F == 2 ? 2 : 1) : (F == 2 && (op == PREDICT1 || op == DECIDE1) ? 2 : 1);
                        for (int jobs : tiered<ivec>({2, 3}, {2, 3, 4}))
                            if (thorough() || (F == 2 ? bound == 1 || (jobs == 2 && pat == 1) : jobs == 2 && pat == 2))
                                add(fmt("%s/preempt/%s/F%d/jobs%d/pat%u/bound%d", n.c_str(), opname[op], F, jobs, pat, bound), [=]()
                                {
                                    Cfg c; c.clauses = 4; c.thr = 3; c.N = 3;
                                    preempt_case<E>(c, F, cls ? 2 : 1, op, jobs, bound, pat);
                                });
                    }
    });
    // the controller and the comparison of accesses work: a region with a race and one with a lost update
    add("controller", []()
    {
        Seen seen;
        int shared = 0; int own[8] = {};
        auto racy = [&](rt::Conf const & cf)
        {
            rt::begin(cf);
            int volatile * s = &shared; *s = 0;
            #pragma omp parallel for num_threads(3)
            for (int i = 0; i < 3; ++i) { int v = *s; own[i] = i; *s = v + 1; }
            return rt::end();
        };
        std::set<int> results; long runs = 0;
        rt::Conf cf; auto base = racy(cf);
        CHECK(!base.conflict.empty() && base.max_team == 3 && base.parallel_regions == 1, "controller: a race was not noticed");
        for (long k = 0; k < base.steps.at(0); ++k) for (int to = 0; to < 3; ++to) { rt::Conf f; f.preempts = {{k, to}}; racy(f); results.insert(shared); ++runs; transitions(); traces(); seen.insert(fmt("%ld-%d", k, to)); }
        CHECK(results.count(3) && results.count(2), "controller: lost updates were not found in %ld schedules", runs);
        auto clean = [&]()
        {
            rt::begin({});
            #pragma omp parallel for num_threads(3)
            for (int i = 0; i < 3; ++i) own[i] = i;
            return rt::end();
        };
        CHECK(clean().conflict.empty(), "controller: conflict in a region without one");
    });
}
