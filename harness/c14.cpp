// C14: isolation.  (a) Every sequence of operations on two live estimators (including constructing
// one from the other's state, moving them, and taking snapshots) up to a depth: each estimator ends
// in the state its own history leads to alone.  (b) For every pair of operations on different
// estimators: executed by two threads, no byte written by one is touched by the other, so that any
// interleaving of their accesses gives the same result.
#include "life.hpp"
#include "tsrt.hpp"
#include "tsetlini_state_json.hpp"
#include <thread>
#include <semaphore.h>
#include <pthread.h>
using namespace vf;

template<class E> struct Alphabet
{
    std::vector<Op<E>> ops;
    Alphabet(Cfg const & c, bool small)
    {
        Life<E> l(c);
        auto A = l.A(), B = l.B(), D = l.D();
        l.fit(A, 2, 1); l.pfit(A, 2, 1); l.fit(B, 3, 1);
        l.predict(A);
        if (!small) { l.pfit(D, 2, 2); l.query(A); l.query(B); }
        else l.ops.pop_back();
        ops = l.ops;
    }
};

// what an estimator does when alone, by history
template<class E> struct Alone
{
    Cfg c; std::vector<Op<E>> const & ops; std::map<std::string, std::string> memo;
    std::string answers(E & e)
    {
        using S = typename Tr<E>::Sample;
        std::string k;
        auto p = e.clone_state();
        int const F = ta_shape(*p).second;
        if (ta_shape(*p).first)
        {
            auto X = mk<S>(std::vector<ivec>{ivec(F, 0), ivec(F, 1)});
            k += show(to_ivec(take(e.predict(X), "predict")));
            if constexpr (Tr<E>::cls) for (auto & q : take(e.decision_function(X), "decision_function")) k += show(to_ivec(q));
        }
        return k;
    }
    std::string of(std::string const & h)
    {
        auto it = memo.find(h);
        if (it != memo.end()) return it->second;
        E e = make<E>(c);
        for (unsigned char o : h) ops[o].call(e);
        auto p = e.clone_state();
        return memo[h] = full(*p).key() + answers(e);
    }
};

// operations on the pair: 0..n-1 on the first, n..2n-1 on the second, then the structural ones
enum { COPY12, COPY21, SWAP, MOVE1, SNAP1, SNAP2, DROP2, NSTRUCT };
static char const * const sname[] = {"second := copy of first", "first := copy of second", "swap by moving", "move first away and back", "snapshot of first", "snapshot of second", "second := new"};

template<class E> void pairs(Cfg const & c1, Cfg const & c2, bool same, int depth, unsigned first)
{
    Alphabet<E> al(c1, true); auto & ops = al.ops; unsigned const n = (unsigned)ops.size();
    Alone<E> alone1{c1, ops, {}}, alone2{c2, ops, {}};
    Seen seen;
    unsigned const total = 2 * n + NSTRUCT;
    std::vector<unsigned> seq;
    using Ptr = decltype(std::declval<E &>().clone_state());
    auto execute = [&]()
    {
        auto e1 = std::make_unique<E>(make<E>(c1)), e2 = std::make_unique<E>(make<E>(c2));
        std::string h1, h2; int k1 = 1, k2 = 2;          // history and configuration of each
        struct Held { Ptr p; std::string key; };
        std::vector<Held> held;
        std::string path;
        for (auto o : seq)
        {
            path += path.empty() ? "" : ", ";
            if (o < n) { path += "1: " + ops[o].name; note("%s", path.c_str()); ops[o].call(*e1); h1 += (char)o; }
            else if (o < 2 * n) { path += "2: " + ops[o - n].name; note("%s", path.c_str()); ops[o - n].call(*e2); h2 += (char)(o - n); }
            else
            {
                int const s = o - 2 * n;
                path += sname[s]; note("%s", path.c_str()); transitions();
                if (s == COPY12) { auto p = e1->clone_state(); *e2 = E(*p); h2 = h1; k2 = k1; }
                else if (s == COPY21) { auto p = e2->clone_state(); *e1 = E(*p); h1 = h2; k1 = k2; }
                else if (s == SWAP) { E t(std::move(*e1)); *e1 = std::move(*e2); *e2 = std::move(t); std::swap(h1, h2); std::swap(k1, k2); }
                else if (s == MOVE1) { E t(std::move(*e1)); e1.reset(new E(std::move(t))); }
                else if (s == SNAP1) { auto p = e1->clone_state(); auto k = full(*p).key(); held.push_back({std::move(p), k}); }
                else if (s == SNAP2) { auto p = e2->clone_state(); auto k = full(*p).key(); held.push_back({std::move(p), k}); }
                else if (s == DROP2) { e2.reset(new E(make<E>(c2))); h2 = ""; k2 = 2; }
            }
        }
        traces();
        for (int i = 0; i < 2; ++i)
        {
            E & e = i ? *e2 : *e1;
            auto p = e.clone_state();
            auto const got = full(*p).key() + alone1.answers(e);
            auto & al = (i ? k2 : k1) == 1 ? alone1 : alone2;
            CHECK(got == al.of(i ? h2 : h1), "after [%s] estimator %d is not in the state its own history leads to", path.c_str(), i + 1);
            seen.insert(got);
        }
        for (auto & h : held) CHECK(full(*h.p).key() == h.key, "after [%s] a snapshot changed", path.c_str());
        // a snapshot can be used like the estimator it was taken of
        for (auto & h : held) { E e(*h.p); auto p = e.clone_state(); CHECK(full(*p).key() == h.key, "after [%s] an estimator made of a snapshot differs", path.c_str()); }
    };
    (void)same;
    std::function<void()> go = [&]()
    {
        if ((int)seq.size() == depth) { execute(); return; }
        for (unsigned o = 0; o < total; ++o) { seq.push_back(o); go(); seq.pop_back(); }
    };
    seq.push_back(first);
    go();
}

// (b) ---------------------------------------------------------------------------------------------
struct Actor      // a thread that runs one job as actor `id`, and stays until told to go
{
    std::function<void()> job; int id; bool fresh; bool ran = false; std::string err; sem_t start, done, leave; pthread_t th; rt::Report rep;
    static void * body(void * p)
    {
        auto & a = *(Actor *)p;
        while (sem_wait(&a.start)) { }
        if (!a.job) return nullptr;       // never run
        rt::record_begin(a.id, a.fresh);
        try { a.job(); } catch (Violation const & v) { a.err = v.msg; } catch (std::exception const & e) { a.err = e.what(); }
        a.rep = rt::record_end();
        sem_post(&a.done);
        while (sem_wait(&a.leave)) { }
        return nullptr;
    }
    Actor(int id, bool fresh) : id(id), fresh(fresh) { sem_init(&start, 0, 0); sem_init(&done, 0, 0); sem_init(&leave, 0, 0); pthread_create(&th, nullptr, body, this); }
    void run(std::function<void()> f) { job = f; ran = true; sem_post(&start); while (sem_wait(&done)) { } }
    ~Actor() { if (!ran) sem_post(&start); sem_post(&leave); pthread_join(th, nullptr); sem_destroy(&start); sem_destroy(&done); sem_destroy(&leave); }
};
static rt::Report two(std::function<void()> f, std::function<void()> g, std::string const & what)
{
    Actor a(0, true), b(1, false);
    a.run(f); b.run(g);
    CHECK(a.err.empty() && b.err.empty(), "%s: %s %s", what.c_str(), a.err.c_str(), b.err.c_str());
    return b.rep;
}

// operations with everything they need, on an estimator of their own
struct Job { std::string name; std::function<std::function<void()>()> prepare; };
template<class E> std::vector<Job> jobs(Cfg const & c)
{
    std::vector<Job> r;
    std::string const n = Tr<E>::name;
    auto al = std::make_shared<Alphabet<E>>(c, false);
    // on an unfitted and on a fitted estimator
    auto est = [=](bool fitted){ auto e = std::make_shared<E>(make<E>(c)); if (fitted) al->ops[0].call(*e); return e; };
    for (int fitted = 0; fitted < 2; ++fitted)
        for (auto & op : al->ops)
        {
            auto call = op.call;
            r.push_back({n + (fitted ? ", fitted: " : ", unfitted: ") + op.name, [=](){ auto e = est(fitted); return [=](){ call(*e); }; }});
        }
    r.push_back({n + ": clone_state", [=](){ auto e = est(true); return [=](){ auto p = e->clone_state(); }; }});
    r.push_back({n + ": read_params", [=](){ auto e = est(true); return [=](){ auto p = e->read_params(); }; }});
    r.push_back({n + ": save", [=](){ auto e = est(true); return [=](){ auto p = e->clone_state(); auto s = T::to_json_string(*p); }; }});
    r.push_back({n + ": restore", [=]()
    {
        auto e = est(true);
        auto js = std::make_shared<std::string>(T::to_json_string(*e->clone_state()));
        auto st = std::make_shared<typename Tr<E>::State>(*make<E>(c).clone_state());
        return [=](){ T::from_json_string(*st, *js); };
    }});
    r.push_back({n + ": construct from a state", [=](){ auto st = std::make_shared<typename Tr<E>::State>(*est(true)->clone_state()); return [=](){ E f(*st); (void)f; }; }});
    r.push_back({n + ": make", [=](){ return [=](){ E e = make<E>(c); (void)e; }; }});
    return r;
}
template<class E> void join(std::vector<Job> & v, Cfg const & c) { for (auto & j : jobs<E>(c)) v.push_back(j); }
static std::vector<Job> all_jobs(Cfg const & c)
{
    std::vector<Job> v;
    join<T::ClassifierClassic>(v, c); join<T::ClassifierBitwise>(v, c); join<T::RegressorClassic>(v, c); join<T::RegressorBitwise>(v, c);
    return v;
}

// another estimator trained all along
template<class E> void long_life(Cfg const & c, Cfg const & d, int n)
{
    LongLife<E> l(c, n), m(d, 2 * n);
    E o = make<E>(d); int k = 0;
    l.with("trainings of another estimator", [&](E &, int i)
    {
        for (int t = i % 3; t > 0 && k < 2 * n; --t, ++k)
        {
            m.step(o, k);
            auto const x = full(*o.clone_state()).diff(m.plain[k]);
            CHECK(x.empty(), "the other estimator's training %d leads to another state: %s", k, x.c_str());
        }
    });
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        auto cf = life_cfgs(Tr<E>::cls);
        Alphabet<E> al(cf[0].second, true);
        unsigned const total = 2 * (unsigned)al.ops.size() + NSTRUCT;
        for (auto & pr : std::vector<std::pair<int, int>>{{0, 0}, {0, 1}, {1, 2}, {2, 1}})
        {
            Cfg a = cf[pr.first].second, b = cf[pr.second].second;
            a.jobs = b.jobs = 1;
            add(fmt("%s/long life/%d-%d", Tr<E>::name, pr.first, pr.second), [=](){ long_life<E>(a, b, tiered(1500, 5000)); });
        }
        for (auto & pr : std::vector<std::pair<int, int>>{{0, 0}, {0, 1}, {1, 2}})
            for (unsigned f = 0; f < total; ++f)
            {
                Cfg a = cf[pr.first].second, b = cf[pr.second].second;
                a.jobs = b.jobs = 1;
                // the first two are alike: by symmetry an operation on the first estimator comes first
                unsigned const n = (unsigned)al.ops.size();
                if (pr.first == pr.second && ((f >= n && f < 2 * n) || f == 2 * n + COPY21 || f == 2 * n + SNAP2)) continue;
                int const depth = tiered(pr.first == pr.second && f < n ? 4 : 3, 5);
                add(fmt("%s/pairs/%d-%d/first%u/depth%d", Tr<E>::name, pr.first, pr.second, f, depth), [=](){ pairs<E>(a, b, pr.first == pr.second, depth, f); });
            }
    });
    for (int cfg = 0; cfg < 2; ++cfg)
    {
        Cfg c; c.clauses = 4; c.thr = 3; c.N = cfg ? 200 : 3; c.weighted = cfg; c.jobs = cfg ? 2 : 1; c.bm = cfg;
        // sixteen operations at a time, each by a thread of its own; every two of all operations meet
        size_t const n = all_jobs(c).size(), g = (n + 7) / 8;
        for (size_t i = 0; i < g; ++i)
            for (size_t k = i + (i + 1 < g); k < g; ++k)
                add(fmt("threads/cfg%d/groups%zu-%zu", cfg, i, k), [=]()
                {
                    Seen seen;
                    auto all = all_jobs(c);
                    // one-time initialisations are the language's business: every operation has run once
                    static std::set<std::pair<int, size_t>> warmed;
                    std::vector<size_t> js;
                    for (size_t q : {i, k}) for (size_t j = 8 * q; j < std::min(n, 8 * q + 8); ++j) if (std::find(js.begin(), js.end(), j) == js.end()) js.push_back(j);
                    std::vector<std::unique_ptr<Actor>> actors;
                    std::vector<std::function<void()>> runs;
                    for (auto j : js) { if (warmed.insert({cfg, j}).second) all[j].prepare()(); runs.push_back(all[j].prepare()); }
                    std::string names;
                    for (size_t q = 0; q < js.size(); ++q)
                    {
                        names += fmt("%zu=[%s] ", q, all[js[q]].name.c_str());
                        actors.emplace_back(new Actor((int)q, q == 0));
                    }
                    note("%s", names.substr(0, 480).c_str());
                    for (size_t q = 0; q < js.size(); ++q)
                    {
                        actors[q]->run(runs[q]);
                        CHECK(actors[q]->err.empty(), "%s: %s", all[js[q]].name.c_str(), actors[q]->err.c_str());
                        transitions(); traces(q);
                        seen.insert(fmt("%zu-%zu-%zu", i, k, q));
                        auto const & cf = actors[q]->rep.conflict;
                        CHECK(cf.empty(), "operations on different estimators at the same time: %s  (%s)", cf.c_str(), names.c_str());
                    }
                    count("memory accesses compared", actors.back()->rep.accesses);
                    count("pairs of operations", js.size() * (js.size() - 1) / 2);
                });
    }
    add("threads/recorder", []()
    {
        Seen seen; seen.insert("r"); transitions(); traces();
        static int volatile shared; static int volatile other;
        auto rep = two([](){ shared = 1; }, [](){ other = shared; }, "control");
        CHECK(!rep.conflict.empty(), "recorder: a shared variable was not noticed");
        rep = two([](){ shared = 1; }, [](){ other = 2; }, "control");
        CHECK(rep.conflict.empty(), "recorder: conflict without one: %s", rep.conflict.c_str());
    });
}
