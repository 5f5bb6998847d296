// C30: silent unless asked for, and truthful when asked.  Everything any call writes to the two standard
// descriptors is caught: nothing at all unless `verbose` is set, and then, on standard error alone, for a
// successful fit or partial_fit the parameters of the model that results and one line for each epoch
// run, in order; nothing for all other calls.
#include "life.hpp"
#include "tsetlini_state_json.hpp"
#include <climits>
#include <cmath>
#include <iostream>
#include <sstream>
using namespace vf;

struct Caught { std::string out, err; };
template<class F> Caught caught(F f)
{
    static int const file[2] = {memfd_create("out", 0), memfd_create("err", 0)};
    auto flush = []{ std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout); fflush(stderr); };
    flush();
    int saved[2];
    for (int i : {0, 1}) { if (ftruncate(file[i], 0)) abort(); lseek(file[i], 0, SEEK_SET); saved[i] = dup(i + 1); dup2(file[i], i + 1); }
    struct Back { int * s; decltype(flush) & fl; ~Back() { fl(); for (int i : {0, 1}) { dup2(s[i], i + 1); close(s[i]); } } };
    { Back b{saved, flush}; f(); }
    std::string r[2];
    for (int i : {0, 1}) { off_t n = lseek(file[i], 0, SEEK_END); r[i].resize(n); if (n && pread(file[i], r[i].data(), n, 0) != n) abort(); }
    transitions();
    return {r[0], r[1]};
}
static char const * where() { return sh()->w[me()].note; }

// does the text denote the value?
static bool denotes(std::string const & t, T::param_value_t const & v)
{
    std::string const x = t;
    return std::visit([&](auto const & y) -> bool
    {
        using Y = std::decay_t<decltype(y)>;
        if constexpr (std::is_same_v<Y, std::string>) return x == y;
        else if constexpr (std::is_same_v<Y, T::none_type>) return true;
        else if constexpr (std::is_same_v<Y, bool>) return x == (y ? "1" : "0") || x == (y ? "true" : "false");
        else if constexpr (std::is_same_v<Y, T::real_type>) { char * e; double const d = strtod(x.c_str(), &e); return !x.empty() && !*e && std::abs(d - (double)y) <= 1e-5 * std::abs((double)y); }
        else return x == std::to_string(y);
    }, v);
}
struct Log
{
    std::vector<long> epochs; std::map<std::string, std::vector<std::string>> params; std::vector<std::string> types; bool late = false;
    explicit Log(std::string const & s)
    {
        CHECK(s.empty() || s.back() == '\n', "%s: the log does not end with a whole line: ...%s", where(), s.substr(s.size() > 60 ? s.size() - 60 : 0).c_str());
        std::istringstream in(s); std::string l;
        while (std::getline(in, l))
        {
            // LEVEL:module:text
            auto a = l.find(':'), b = a == l.npos ? l.npos : l.find(':', a + 1);
            CHECK(b != l.npos, "%s: a line without level and module: %s", where(), l.c_str());
            std::string const t = l.substr(b + 1);
            long k; int n = 0;
            if (sscanf(t.c_str(), "Epoch %ld%n", &k, &n) == 1 && n) { CHECK((size_t)n == t.size(), "%s: a strange line %s", where(), l.c_str()); epochs.push_back(k); continue; }
            if (!epochs.empty()) late = true;
            char ty[16];
            if (sscanf(t.c_str(), "Selected %15s for ta_state", ty) == 1) { types.push_back(ty); continue; }
            auto c = t.find(": ");
            CHECK(c != t.npos, "%s: a strange line %s", where(), l.c_str());
            params[t.substr(0, c)].push_back(t.substr(c + 2));
        }
    }
};
// what a successful training must have logged
template<class E> void truthful(E & e, std::string const & err, unsigned epochs, bool afresh)
{
    Log const log(err);
    auto const p = e.clone_state();
    auto par = e.read_params();
    CHECK(log.epochs.size() == epochs, "%s: %zu of %u epochs are logged", where(), log.epochs.size(), epochs);
    for (unsigned i = 0; i < epochs; ++i) CHECK(log.epochs[i] == i + 1l, "%s: line %u of the epochs says %ld", where(), i + 1, log.epochs[i]);
    CHECK(!log.late, "%s: something else is logged after the first epoch", where());
    std::vector<std::string> names{"number_of_features", "number_of_clauses", "s", "number_of_states", "threshold", "weighted", "counting_type", "n_jobs", "random_state"};
    if (Tr<E>::cls) names.push_back("number_of_labels");
    else for (auto n : {"loss_fn", "loss_fn(C1)", "box_muller"}) names.push_back(n);
    bool const weighted = std::get<bool>(par.at("weighted"));
    if (weighted) names.push_back("max_weight");
    if (afresh) for (auto & n : names) CHECK(log.params.count(n) && log.params.at(n).size() == 1, "%s: %s is not logged once", where(), n.c_str());
    for (auto & [n, v] : log.params)
    {
        std::string key = n == "loss_fn(C1)" ? "loss_fn_C1" : n;
        T::param_value_t want;
        if (n == "number_of_clauses") want = T::param_value_t((int)ta_shape(*p).first);
        else { CHECK(par.count(key), "%s: %s, which is logged, is no parameter", where(), n.c_str()); want = par.at(key); }
        for (auto & x : v) CHECK(denotes(x, want), "%s: %s is logged as %s", where(), n.c_str(), x.c_str());
        CHECK(n != "max_weight" || weighted, "%s: max_weight is logged of an unweighted estimator", where());
    }
    if (afresh) CHECK(log.types.size() == 1, "%s: the counting type chosen is not logged once", where());
    for (auto & t : log.types) CHECK(t == fmt("int%d", 8 * ta_width(*p)), "%s: %s is logged, automata count in %d bytes", where(), t.c_str(), ta_width(*p));
    count("logs of trainings read");
}

template<class E> struct Chat
{
    using State = typename Tr<E>::State; using S = typename Tr<E>::Sample;
    struct O { std::string name; std::function<bool(E &)> call; int epochs = -1; bool fit = false; };     // true: went well
    Cfg c; Life<E> life; std::vector<O> ops;
    explicit Chat(Cfg const & c) : c(c), life(c)
    {
        auto data = {life.A(), life.B(), life.C()};
        for (auto & d : data) for (unsigned ep : {0, 1, 3})
        {
            auto X = mk<S>(d.X); auto y = d.y; int L = d.L;
            ops.push_back({fmt("fit %s, %u epochs", d.name.c_str(), ep), [=](E & e){ return do_fit(e, X, y, L, ep).first == T::S_OK; }, (int)ep, true});
            ops.push_back({fmt("partial_fit %s, %u epochs", d.name.c_str(), ep), [=](E & e){ return do_pfit(e, X, y, L, ep).first == T::S_OK; }, (int)ep, false});
        }
        life.refused();
        for (auto d : data) { life.predict(d); life.query(d); }
        for (auto & o : life.ops) ops.push_back({o.name, [f = o.call](E & e){ return f(e).first == T::S_OK; }, -1, false});
        ops.push_back({"read_params", [](E & e){ (void)e.read_params(); return true; }});
        ops.push_back({"clone_state", [](E & e){ (void)e.clone_state(); return true; }});
        ops.push_back({"copy from state and back", [](E & e){ E f(*e.clone_state()); E g(std::move(f)); e = std::move(g); return true; }});
        ops.push_back({"save and restore", [](E & e)
        {
            auto p = e.clone_state(); std::string const s = T::to_json_string(*p);
            T::from_json_string(*p, s); e = E(*p);
            try { T::from_json_string(*p, s.substr(0, s.size() / 2)); } catch (std::exception const &) { }
            return true;
        }});
    }
    // from a state: the call, what it writes, and its effect
    void step(E & e, O const & o, bool verbose)
    {
        bool const afresh = o.fit || ta_shape(*e.clone_state()).first == 0;
        bool good = false;
        auto const w = caught([&]{ good = o.call(e); });
        CHECK(w.out.empty(), "%s: written to standard output: %.200s", where(), w.out.c_str());
        if (!verbose) CHECK(w.err.empty(), "%s: written to standard error although not verbose: %.200s", where(), w.err.c_str());
        else if (o.epochs < 0 || !good) CHECK(w.err.empty(), "%s: logged by a call that trained nothing: %.200s", where(), w.err.c_str());
        else truthful(e, w.err, o.epochs, afresh);
    }
    void histories(int depth)
    {
        life.ops.clear();
        life.fit(life.A(), 2, 1); life.fit(life.B(), 3, 2); life.fit(life.C(), 2, 1); life.pfit(life.A(), 2, 2); life.pfit(life.B(), 3, 1); life.pfit(life.C(), 2, 0);
        // whatever is logged while exploring is not looked at, but kept off the terminal
        std::vector<std::pair<std::string, std::shared_ptr<State>>> all;
        (void)caught([&]{ life.explore(depth, [&](State const & st, std::string const & path){ all.push_back({path, std::make_shared<State>(st)}); }); });
        for (auto & [path, st] : all)
            for (auto & o : ops)
            {
                note("%s verbose=%d [%s], then %s", Tr<E>::name, c.verbose, path.c_str(), o.name.c_str());
                E e(*st);
                step(e, o, c.verbose);
                traces();
            }
    }
};
// one quiet and one verbose estimator at the same time
template<class E> void alternate(Cfg c, int len)
{
    Cfg d = c; c.verbose = false; d.verbose = true;
    Chat<E> q(c), v(d);
    std::vector<size_t> pick;
    for (size_t i = 0; i < q.ops.size(); ++i)
        if (q.ops[i].name == "fit A, 1 epochs" || q.ops[i].name == "partial_fit A, 3 epochs" || q.ops[i].name == "fit B, 0 epochs" || q.ops[i].name == "predict A" || q.ops[i].name == "fit with a negative target" || q.ops[i].name == "copy from state and back") pick.push_back(i);
    CHECK(pick.size() == 6, "setup");
    size_t n = 1; for (int i = 0; i < len; ++i) n *= 2 * pick.size();
    for (size_t s = 0; s < n; ++s)
    {
        E a = make<E>(c), b = make<E>(d);
        std::string path; size_t k = s;
        for (int i = 0; i < len; ++i, k /= 2 * pick.size())
        {
            bool const second = k % 2; size_t const o = pick[k % (2 * pick.size()) / 2];
            path += fmt("%s: %s; ", second ? "verbose" : "quiet", q.ops[o].name.c_str());
            note("%s %s", Tr<E>::name, path.c_str());
            if (second) v.step(b, v.ops[o], true); else q.step(a, q.ops[o], false);
        }
        traces();
    }
    states(n);
}
// the values logged, for every parameter's values
template<class E> void values(Cfg base, std::string const & what)
{
    base.verbose = true;
    std::vector<Cfg> all;
    auto vary = [&](auto field, auto list) { for (auto v : list) { Cfg c = base; c.*field = v; all.push_back(c); } };
    if (what == "numbers")
    {
        vary(&Cfg::s, std::vector<float>{1.f, 1.0001f, 1.5f, 2.f, 3.9f, 10.f, 123.456f, 1e6f, 3e7f, 1e30f});
        vary(&Cfg::thr, std::vector<int>{1, 2, 15, 9999, 100000, 1000000, INT_MAX});
        vary(&Cfg::N, std::vector<int>{1, 2, 126, 127, 128, 129, 255, 256, 32766, 32767, 32768, 65536, 1000000, INT_MAX});
        vary(&Cfg::clauses, std::vector<int>{4, 8, 12, 100, 1000, 10000});
        vary(&Cfg::jobs, std::vector<int>{1, 2, 3, 8, -1});
        vary(&Cfg::seed, std::vector<unsigned>{0, 1, 42, 1000000, 1u << 31, UINT_MAX});
        for (bool w : {false, true}) for (int m : {1, 2, 1000, 1000000, INT_MAX}) { Cfg c = base; c.weighted = w; c.maxw = m; all.push_back(c); }
    }
    else if (what == "counting")
    {
        for (auto ct : {"auto", "int8", "int16", "int32"}) for (int N : {1, 126, 127, 128, 129, 255, 256, 32766, 32767, 32768, 32769, 65535, 65536, 1000000}) { Cfg c = base; c.ctype = ct; c.N = N; all.push_back(c); }
    }
    else if (what == "losses")
    {
        for (auto l : {"MSE", "MAE", "L2", "L1", "L1+2", "berHu"}) for (float c1 : {0.f, 0.5f, 1.f, 12.25f, 1e6f}) for (bool bm : {false, true}) for (int w : {0, 1})
        {
            Cfg c = base; c.loss = l; c.C1 = c1; c.bm = bm; c.weighted = w; all.push_back(c);
        }
    }
    Seen seen;
    for (auto & c : all)
        for (int F : {1, 2, 63, 64, 65, 300})
            for (int L : {2, 3, 11})
            {
                if (!Tr<E>::cls && L > 2) continue;
                if (c.clauses > 1000 && F > 2) continue;
                using S = typename Tr<E>::Sample;
                note("%s %s: s=%g thr=%d N=%d clauses=%d jobs=%d seed=%u weighted=%d max=%d %s %s C1=%g bm=%d, F=%d L=%d", Tr<E>::name, what.c_str(), c.s, c.thr, c.N, c.clauses, c.jobs, c.seed, c.weighted, c.maxw, c.ctype.c_str(), c.loss.c_str(), c.C1, c.bm, F, L);
                auto X = mk<S>(std::vector<ivec>{ivec(F, 0), ivec(F, 1)});
                for (unsigned ep : {0u, 2u, 12u})
                {
                    if (ep == 12 && (F > 2 || c.clauses > 100)) continue;
                    std::unique_ptr<E> e; T::status_message_t s;
                    auto w = caught([&]{ e = std::make_unique<E>(make<E>(c)); });
                    CHECK(w.out.empty() && w.err.empty(), "%s: written when created: %s%s", where(), w.out.c_str(), w.err.c_str());
                    w = caught([&]{ s = do_fit(*e, X, ivec{0, 1}, L, ep); });
                    CHECK(s.first == T::S_OK, "%s: refused: %s", where(), s.second.c_str());
                    CHECK(w.out.empty(), "%s: written to standard output: %.200s", where(), w.out.c_str());
                    truthful(*e, w.err, ep, true);
                    traces();
                }
                seen.insert(where());
            }
}
// long runs
template<class E> void epochs()
{
    for (bool verbose : {false, true})
        for (unsigned n : {1u, 2u, 9u, 10u, 11u, 99u, 100u, 101u, 999u, 1000u, 1001u, 10001u, 32769u, 65538u, tiered(65539u, 1000001u)})
            for (int first : {0, 1, 2})
            {
                using S = typename Tr<E>::Sample;
                Cfg c; c.verbose = verbose; c.N = 3; c.clauses = 4;
                note("%s verbose=%d: %u epochs %s", Tr<E>::name, verbose, n, first == 0 ? "of fit" : first == 1 ? "of partial_fit, first" : "of partial_fit, later");
                E e = make<E>(c); auto X = mk<S>(std::vector<ivec>{{0, 1}});
                T::status_message_t s;
                if (first == 2) (void)caught([&]{ s = do_fit(e, X, {1}, 2, 1); });
                auto const w = caught([&]{ s = first ? do_pfit(e, X, {1}, 2, n) : do_fit(e, X, {1}, 2, n); });
                CHECK(s.first == T::S_OK, "%s: refused", where());
                CHECK(w.out.empty(), "%s: written to standard output: %.200s", where(), w.out.c_str());
                if (!verbose) CHECK(w.err.empty(), "%s: written to standard error: %.200s", where(), w.err.c_str());
                else truthful(e, w.err, n, first < 2);
                traces(); states();
            }
}
template<class E> E from_json(std::string const & s, bool & good)
{
    auto get = [&](auto && e) { good = is_ok(e); if (!good) return make<E>(Cfg{}); return take(std::move(e)); };
    if constexpr (Tr<E>::cls) { if constexpr (Tr<E>::bit) return get(T::make_classifier_bitwise_from_json(s)); else return get(T::make_classifier_classic_from_json(s)); }
    else { if constexpr (Tr<E>::bit) return get(T::make_regressor_bitwise_from_json(s)); else return get(T::make_regressor_classic_from_json(s)); }
}
template<class E> void creation()
{
    std::vector<std::string> docs{"{}", "", "{", "[]", "1", "null", "{\"verbose\": true}", "{\"verbose\": false}", "{\"verbose\": 1}", "{\"verbose\": \"true\"}", "{\"unknown\": 1}", "{\"s\": 0.5, \"verbose\": true}", "{\"verbose\": true, \"loss_fn\": \"nothing\"}",
        "{\"verbose\": true, \"threshold\": 9.5}", "{\"verbose\": true, \"n_jobs\": 2}", "{\"verbose\": true, \"n_jobs\": -1, \"weighted\": true}", "{\"verbose\": true, \"random_state\": null}", "{\"verbose\": true, \"counting_type\": \"int9\"}", "{\"verbose\": true}}"};
    for (auto & d : docs)
    {
        note("%s made from %s", Tr<E>::name, d.c_str());
        std::unique_ptr<E> e; bool good = false;
        auto w = caught([&]{ e = std::make_unique<E>(from_json<E>(d, good)); });
        CHECK(w.out.empty() && w.err.empty(), "%s: written: %.100s%.100s", where(), w.out.c_str(), w.err.c_str());
        states(); traces();
        if (!good) continue;
        using S = typename Tr<E>::Sample;
        bool const verbose = std::get<bool>(e->read_params().at("verbose"));
        CHECK(verbose == (d.find("\"verbose\": true") != d.npos), "%s: verbose is recorded as %d", where(), verbose);
        auto X = mk<S>(std::vector<ivec>{{0, 1}, {1, 0}});
        T::status_message_t s;
        w = caught([&]{ s = do_fit(*e, X, {0, 1}, 2, 2); });
        CHECK(s.first == T::S_OK && w.out.empty(), "%s: refused, or written to standard output: %.200s", where(), w.out.c_str());
        if (verbose) truthful(*e, w.err, 2, true); else CHECK(w.err.empty(), "%s: written although not verbose: %.200s", where(), w.err.c_str());
    }
}
void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        for (auto & [n, c] : life_cfgs(Tr<E>::cls))
            for (bool v : {false, true})
            {
                Cfg d = c; d.verbose = v;
                add(fmt("%s/%s/verbose %d", Tr<E>::name, n.c_str(), v), [d]{ Chat<E>(d).histories(tiered(3, 4)); });
            }
        for (int j : {1, 2}) { Cfg c; c.jobs = j; add(fmt("%s/alternating, %d jobs", Tr<E>::name, j), [c]{ alternate<E>(c, tiered(4, 5)); }); }
        for (auto w : {"numbers", "counting", "losses"})
        {
            if (Tr<E>::cls && !strcmp(w, "losses")) continue;
            add(fmt("%s/values, %s", Tr<E>::name, w), [w]{ values<E>(Cfg{}, w); });
        }
        add(fmt("%s/epochs", Tr<E>::name), []{ epochs<E>(); });
        add(fmt("%s/creation", Tr<E>::name), []{ creation<E>(); });
    });
}
