// C29: every allocation of every call fails once (and: from then on), in every situation of a life.  The
// call must end with std::bad_alloc or an error status, release everything it had allocated, and leave
// the estimator as it was: state, answers, and whatever is done next.
#include "life.hpp"
#include "alloc.hpp"
#include "tsetlini_state_json.hpp"
#include <climits>
#include <dlfcn.h>
#include <execinfo.h>
using namespace vf;

// The json library does not survive failing allocations: the destructor of its value allocates although
// it must not throw, and values left half made are destroyed as whole ones.  That is beyond the code
// checked here.  So allocations below a destructor of it do not fail, and while states are saved and
// restored none below any function of it.
static bool g_documents = false;
static bool in_json()
{
    void * at[200]; int const n = backtrace(at, 200);
    for (int i = 0; i < n; ++i)
    {
        Dl_info d;
        if (!dladdr(at[i], &d) || !d.dli_sname || !strstr(d.dli_sname, "8nlohmann")) continue;
        std::string_view s(d.dli_sname);
        if (g_documents || s.find("7destroyE") != s.npos || (s.size() > 4 && s.substr(s.size() - 2) == "Ev" && s[s.size() - 4] == 'D' && strchr("012", s[s.size() - 3]))) { count("allocations of the json library, not failed"); return true; }
    }
    return false;
}

static std::vector<long> g_ours; static bool g_record = false;
static bool to_spare()
{
    bool const r = in_json();
    if (!g_record) return r;
    if (!r) g_ours.push_back(oom::seen);
    return true;
}

static long g_from = 0, g_to = 0; static size_t g_limit = SIZE_MAX;
template<class F> auto guarded(F f)
{
    struct Off { ~Off() { oom::disarm(); } } off;
    oom::arm(g_from, g_to, g_limit);
    return f();
}
static std::string text(float v) { return fmt("%a", v); }
static std::string text(int v) { return std::to_string(v); }
static std::string text(std::string const & s) { return s; }
template<class V> std::string text(V const & v) { std::string r = "["; for (auto const & x : v) r += text(x) + ","; return r + "]"; }
static std::string text(T::status_message_t const & s) { return fmt("status %d", (int)s.first); }
template<class R> std::string text(T::Either<T::status_message_t, R> const & e) { return e.isLeft ? text(e.leftValue) : "ok " + text(e.rightValue); }

template<class E> struct Oom
{
    using State = typename Tr<E>::State; using S = typename Tr<E>::Sample;
    struct O { std::string name; std::function<std::string(E &)> call; bool json = false, refused = false, query = false, more = false; };
    Cfg c; Life<E> life; std::vector<O> ops; std::vector<std::pair<std::string, std::shared_ptr<State>>> sit; Seen seen;
    static constexpr bool cls = Tr<E>::cls;

    void op(std::string n, std::function<std::string(E &)> f, bool json = false, bool refused = false, bool query = false) { ops.push_back({n, f, json, refused, query, n.rfind("partial_fit", 0) == 0}); }
    explicit Oom(Cfg const & c) : c(c), life(c)
    {
        auto a = life.A(), b = life.B(), w = life.C();
        auto XA = mk<S>(a.X), XB = mk<S>(b.X), XC = mk<S>(w.X);
        auto none = std::vector<S>();
        auto fit = [&](std::string n, auto X, ivec y, int L, unsigned ep, bool bad = false) { op("fit " + n, [=](E & e){ return text(guarded([&]{ return do_fit(e, X, y, L, ep); })); }, false, bad); };
        auto pfit = [&](std::string n, auto X, ivec y, int L, unsigned ep, bool bad = false) { op("partial_fit " + n, [=](E & e){ return text(guarded([&]{ return do_pfit(e, X, y, L, ep); })); }, false, bad); };
        fit("A, 1 epoch", XA, a.y, 2, 1); fit("A, 0 epochs", XA, a.y, 2, 0); fit("B, 2 epochs", XB, b.y, 3, 2); fit("C, 1 epoch", XC, w.y, 2, 1);
        pfit("A, 2 epochs", XA, a.y, 2, 2); pfit("B, 1 epoch", XB, b.y, 3, 1);
        for (auto & [n, X] : {std::make_pair(std::string("A"), XA), std::make_pair(std::string("B"), XB)})
        {
            auto Y = X;
            op("predict " + n, [=](E & e){ return text(guarded([&]{ return e.predict(Y); })); }, false, false, true);
            op("predict one of " + n, [=](E & e){ return text(guarded([&]{ return e.predict(Y[1]); })); }, false, false, true);
            if constexpr (cls)
            {
                op("decision_function " + n, [=](E & e){ return text(guarded([&]{ return e.decision_function(Y); })); }, false, false, true);
                op("decision_function one of " + n, [=](E & e){ return text(guarded([&]{ return e.decision_function(Y[1]); })); }, false, false, true);
                op("evaluate " + n, [=](E & e){ return text(guarded([&]{ return e.evaluate(Y, Y.size() == a.y.size() ? a.y : b.y); })); }, false, false, true);
            }
        }
        // refusals, whose messages are allocated
        { auto y = a.y; y[1] = -1; fit("with a negative target", XA, y, -1, 1, true); }
        { auto y = a.y; y.pop_back(); pfit("with too few targets", XA, y, -1, 1, true); }
        { auto X = XA; X[2] = mk<S>(ivec{1, 0, 1}); fit("with ragged rows", X, a.y, -1, 1, true); }
        pfit("without data", none, ivec{}, 2, 1, true);
        op("predict without data", [=](E & e){ return text(guarded([&]{ return e.predict(none); })); }, false, true, true);
        op("clone_state", [=](E & e){ auto p = guarded([&]{ return e.clone_state(); }); return full(*p).key(); }, false, false, true);
        op("copy from state", [=](E & e){ auto p = e.clone_state(); auto f = guarded([&]{ return E(*p); }); return full(*f.clone_state()).key(); }, false, false, true);
        op("move", [=](E & e){ E f(*e.clone_state()); auto g = guarded([&]{ return E(std::move(f)); }); return full(*g.clone_state()).key(); }, false, false, true);
        op("read_params", [=](E & e){ auto p = guarded([&]{ return e.read_params(); }); return pkey(p); }, false, false, true);
        op("save", [=](E & e){ auto p = e.clone_state(); return guarded([&]{ return T::to_json_string(*p); }); }, true, false, true);
        for (bool fitted : {false, true})
        {
            E src(make<E>(c)); if (fitted) ok(do_fit(src, XB, b.y, 3, 1));
            std::string const doc = T::to_json_string(*src.clone_state());
            // through a state of its own: there is no way to restore an estimator in place
            op(fmt("restore %s", fitted ? "fitted" : "unfitted"), [=](E & e)
            {
                auto p = e.clone_state();
                auto const was = full(*p);
                try { guarded([&]{ T::from_json_string(*p, doc); return 0; }); }
                catch (...) { auto d = full(*p).diff(was); CHECK(d.empty(), "a state was changed by restoring, which ran out of memory: %s", d.c_str()); throw; }
                return full(*p).key();
            }, true, false, true);
        }
        auto situation = [&](std::string n, std::vector<std::string> path)
        {
            E e(make<E>(c));
            for (auto & q : path) for (auto & o : ops) if (o.name == q) o.call(e);
            State s(*e.clone_state());
            if (seen.insert(full(s).key())) sit.push_back({n, std::make_shared<State>(s)});
        };
        situation("unfitted", {});
        situation("fitted to A", {"fit A, 1 epoch"});
        situation("fitted to C", {"fit C, 1 epoch"});
        situation("fitted to C, then B, and trained", {"fit C, 1 epoch", "fit B, 2 epochs", "partial_fit B, 1 epoch"});
    }
    struct Res { bool threw = false; std::string out; };
    static Res attempt(O const & o, E & e, long from, long to)
    {
        g_from = from; g_to = to; g_documents = o.json;
        Res r;
        try { r.out = o.call(e); }
        catch (std::bad_alloc const &) { r.threw = true; }
        catch (Violation const &) { throw; }
        catch (std::exception const & x) { g_from = g_to = 0; fail("%s: ended with %s instead of std::bad_alloc [%s]", o.name.c_str(), x.what(), sh()->w[me()].note); }
        g_from = g_to = 0; oom::disarm();
        transitions();
        return r;
    }
    struct Ref { std::string out; FullState after; };
    std::map<std::pair<size_t, size_t>, Ref> refs;
    Ref const & reference(size_t i, size_t j)
    {
        auto it = refs.find({i, j});
        if (it != refs.end()) return it->second;
        E e(*sit[i].second);
        auto r = attempt(ops[j], e, 0, 0);
        CHECK(!r.threw, "%s throws with memory available", ops[j].name.c_str());
        return refs[{i, j}] = {r.out, full(*e.clone_state())};
    }
    // the estimator is as it was
    void unchanged(E & e, FullState const & was)
    {
        auto p = e.clone_state();
        auto const d = full(*p).diff(was);
        CHECK(d.empty(), "%s: the estimator was changed: %s", sh()->w[me()].note, d.c_str());
    }
    // Training that was interrupted: some of it may be done, but the estimator is a whole one, and goes
    // on like any other in its state.
    void whole(E & e, FullState const & was, size_t next)
    {
        auto p = e.clone_state();
        if (full(*p) == was) return;
        count("interrupted trainings that had begun");
        auto const s = snap(*p);
        CHECK(pkey(p->m_params) == was.params, "%s: parameters changed", sh()->w[me()].note);
        for (int r = 0; r < s.rows; ++r) for (int k = 0; k < s.cols; ++k)
        {
            CHECK(s.ta[r][k] >= -c.N && s.ta[r][k] < c.N, "%s: an automaton at %d", sh()->w[me()].note, s.ta[r][k]);
            if constexpr (Tr<E>::bit) CHECK(p->ta_state.polarity.test(r, k) == (unsigned)(s.ta[r][k] >= 0), "%s: the mask disagrees", sh()->w[me()].note);
        }
        for (auto w : s.w) CHECK(w < (unsigned)c.maxw, "%s: a weight of %u", sh()->w[me()].note, w + 1);
        for (size_t n = 0; n <= ops.size(); ++n)
        {
            size_t const q = n < ops.size() ? n : next;
            if (n < ops.size() && (!ops[q].query || ops[q].json)) continue;
            E f(*p);
            auto const x = attempt(ops[q], e, 0, 0), y = attempt(ops[q], f, 0, 0);
            CHECK(!x.threw && x.out == y.out && full(*e.clone_state()) == full(*f.clone_state()), "%s: %s differs from that of an estimator made from the state", sh()->w[me()].note, ops[q].name.c_str());
        }
    }
    // one way of failing, then what follows
    bool once(size_t i, size_t j, long from, long to, size_t next, bool ask)
    {
        auto const & o = ops[j];
        note("%s %s: %s, allocation %ld%s fails; then %s", Tr<E>::name, sit[i].first.c_str(), o.name.c_str(), from, to > from ? " and all later ones" : "", next < ops.size() ? ops[next].name.c_str() : "nothing");
        auto const & ref = reference(i, j);
        Ref const * nref = next < ops.size() ? &reference(i, next) : nullptr;
        static long live; live = oom::live;
        bool any;
        {
            E e(*sit[i].second);
            auto const was = full(*sit[i].second);
            auto r = attempt(o, e, from, to);
            any = oom::failed > 0;
            if (!any) CHECK(!r.threw && r.out == ref.out, "%s: differs from before", sh()->w[me()].note);
            bool const done = !r.threw && r.out == ref.out;
            // either it worked, or it is reported
            if (!done) CHECK(r.threw || r.out.rfind("status ", 0) == 0, "%s: a wrong result: %.300s", sh()->w[me()].note, r.out.c_str());
            if (done) { auto d = full(*e.clone_state()).diff(ref.after); CHECK(d.empty(), "%s: succeeded but differs: %s", sh()->w[me()].note, d.c_str()); }
            else if (r.threw && o.more && i) whole(e, was, next);
            else
            {
                unchanged(e, was);
                if (ask)
                    for (size_t q = 0; q < ops.size(); ++q)
                    {
                        if (!ops[q].query || ops[q].json) continue;
                        auto const a = attempt(ops[q], e, 0, 0);
                        CHECK(!a.threw && a.out == reference(i, q).out, "%s (but first %s): answers %.200s instead of %.200s", sh()->w[me()].note, ops[q].name.c_str(), a.out.c_str(), reference(i, q).out.c_str());
                    }
                if (nref)
                {
                    auto q = attempt(ops[next], e, 0, 0);
                    CHECK(!q.threw, "%s: now throws", sh()->w[me()].note);
                    CHECK(q.out == nref->out, "%s: answers %.200s instead of %.200s", sh()->w[me()].note, q.out.c_str(), nref->out.c_str());
                    auto d = full(*e.clone_state()).diff(nref->after);
                    CHECK(d.empty(), "%s: leads to another state: %s", sh()->w[me()].note, d.c_str());
                }
            }
        }
        CHECK(oom::live == live, "%s: %ld blocks of memory are not released", sh()->w[me()].note, (long)oom::live - live);
        traces();
        return any;
    }
    void explore(size_t i, size_t j)
    {
        auto const & o = ops[j];
        // what follows: in turn, each other call that changes something, with and without all the queries
        // before; thorough: each of them
        std::vector<size_t> changes;
        for (size_t q = 0; q < ops.size(); ++q) if (!ops[q].json && !ops[q].query && !ops[q].refused) changes.push_back(q);
        for (size_t q = 0; q < ops.size(); ++q) if (ops[q].query && !ops[q].json) reference(i, q);
        if (o.json)
        {
            // thousands of allocations, all but a few of them the json library's
            reference(i, j);
            { E e(*sit[i].second); g_ours.clear(); g_record = true; attempt(o, e, 1, LONG_MAX); g_record = false; }
            auto const ours = g_ours;
            for (long k : ours) { CHECK(once(i, j, k, k, j, false), "%s: allocation %ld does not happen again", o.name.c_str(), k); count("failed allocations"); }
            count("calls with each allocation failing");
        }
        else for (bool sticky : {false, true})
            for (long k = 1; ; ++k)
            {
                bool any = false;
                if (thorough()) for (size_t q : changes) for (bool ask : {false, true}) any = once(i, j, k, sticky ? LONG_MAX : k, q, ask);
                else any = once(i, j, k, sticky ? LONG_MAX : k, changes[(k / 2) % changes.size()], k % 2 == sticky);
                if (!any) { count(sticky ? "calls with allocations failing from one on" : "calls with each allocation failing"); break; }
                count("failed allocations");
            }
        seen.insert(fmt("%zu/%zu", i, j));
    }
    // two failures in a row, of two calls
    void pairs(size_t i, size_t j)
    {
        for (size_t q = 0; q < ops.size(); ++q)
        {
            if (ops[q].json) continue;
            for (long k = 1; ; ++k)
            {
                bool end = false;
                for (long l = 1; ; ++l)
                {
                    note("%s %s: %s, allocation %ld fails; then %s, allocation %ld fails", Tr<E>::name, sit[i].first.c_str(), ops[j].name.c_str(), k, ops[q].name.c_str(), l);
                    E e(*sit[i].second); auto const was = full(*sit[i].second);
                    auto r = attempt(ops[j], e, k, k);
                    if (!oom::failed) { end = true; break; }
                    if (!r.threw) break;
                    auto p = attempt(ops[q], e, l, l);
                    if (!oom::failed) break;
                    if (p.threw && i && (ops[j].more || ops[q].more)) whole(e, was, j);
                    if (p.threw && (!i || (!ops[j].more && !ops[q].more))) { unchanged(e, was); auto t = attempt(ops[j], e, 0, 0); CHECK(t.out == reference(i, j).out && full(*e.clone_state()) == reference(i, j).after, "%s: the third attempt differs", sh()->w[me()].note); }
                    traces();
                }
                if (end) break;
            }
        }
    }
};

// creation: from arguments and from json
template<class E> E from_json(std::string const & s)
{
    if constexpr (Tr<E>::cls) { if constexpr (Tr<E>::bit) return take(T::make_classifier_bitwise_from_json(s)); else return take(T::make_classifier_classic_from_json(s)); }
    else { if constexpr (Tr<E>::bit) return take(T::make_regressor_bitwise_from_json(s)); else return take(T::make_regressor_classic_from_json(s)); }
}
template<class E> void creation()
{
    Cfg c; c.weighted = true; c.thr = 77; c.clauses = 8; c.ctype = "int16"; c.loss = "L1+2";
    std::string const doc = fmt("{\"threshold\": 77, \"weighted\": true, \"counting_type\": \"int16\", \"%s\": 8, \"s\": 3.5, \"random_state\": 12}", Tr<E>::cls ? "number_of_clauses_per_label" : "number_of_regressor_clauses");
    std::string const wrong = "{\"threshold\": \"a text where a number belongs\"}", unknown = "{\"no such parameter, whatever its name\": 1}", broken = "{\"threshold\": 1";
    std::vector<std::pair<std::string, std::function<std::string()>>> ways{
        {"arguments", [=]{ auto e = guarded([&]{ return make<E>(c); }); return full(*e.clone_state()).key(); }},
        {"json", [=]{ auto e = guarded([&]{ return from_json<E>(doc); }); return full(*e.clone_state()).key(); }},
        {"json of wrong type", [=]{ auto e = guarded([&]{ return from_json<E>(wrong); }); return full(*e.clone_state()).key(); }},
        {"json with an unknown name", [=]{ auto e = guarded([&]{ return from_json<E>(unknown); }); return full(*e.clone_state()).key(); }},
        {"broken json", [=]{ auto e = guarded([&]{ return from_json<E>(broken); }); return full(*e.clone_state()).key(); }},
        {"bad arguments", [=]{ Cfg d = c; d.clauses = 3; auto e = guarded([&]{ return make<E>(d); }); return full(*e.clone_state()).key(); }}};
    for (auto & [n, f] : ways)
    {
        g_from = g_to = 0;
        // the harness reports a refusal as Violation
        auto run = [&f = f](bool & threw, bool & left) -> std::string { threw = left = false; try { return f(); } catch (std::bad_alloc const &) { threw = true; } catch (Violation const &) { left = true; } return ""; };
        bool t0, l0; auto const ref = run(t0, l0);
        CHECK(!t0, "%s: throws with memory available", n.c_str());
        for (bool sticky : {false, true})
            for (long k = 1; ; ++k)
            {
                note("%s made from %s, allocation %ld%s fails", Tr<E>::name, n.c_str(), k, sticky ? " and all later ones" : "");
                static long live; live = oom::live;
                bool t, l, any;
                {
                    g_from = k; g_to = sticky ? LONG_MAX : k;
                    auto const r = run(t, l); any = oom::failed > 0;
                    g_from = g_to = 0;
                    CHECK(t || l || (!l0 && r == ref), "%s: another estimator results", sh()->w[me()].note);
                    CHECK(any || (!t && l == l0), "%s: not as before", sh()->w[me()].note);
                    auto const again = run(t, l);
                    CHECK(!t && l == l0 && again == ref, "%s: afterwards, creation differs", sh()->w[me()].note);
                }
                CHECK(oom::live == live, "%s: %ld blocks of memory are not released", sh()->w[me()].note, (long)oom::live - live);
                transitions(); traces();
                if (!any) break;
                count("failed allocations");
            }
    }
    states(ways.size());
}

template<class E> void scenarios(std::string const & name, Cfg const & c)
{
    // the numbers of operations and situations do not depend on the configuration
    for (size_t i = 0; i < 4; ++i)
        add(fmt("%s/%s/situation %zu", Tr<E>::name, name.c_str(), i), [=]
        {
            Oom<E> q(c); if (i >= q.sit.size()) return;
            for (size_t j = 0; j < q.ops.size(); ++j) if (!q.ops[j].json) q.explore(i, j);
            if (thorough()) for (size_t j = 0; j < q.ops.size(); ++j) if (!q.ops[j].json) q.pairs(i, j);
        });
    add(fmt("%s/%s/documents", Tr<E>::name, name.c_str()), [=]
    {
        Oom<E> q(c);
        for (size_t i = 0; i < q.sit.size(); ++i) if (thorough() || i == 0 || i + 1 == q.sit.size()) for (size_t j = 0; j < q.ops.size(); ++j) if (q.ops[j].json) q.explore(i, j);
    });
}
// what would not fit into memory at all: nothing above 64 MB is granted
template<class E> void huge()
{
    add(fmt("%s/more than there is", Tr<E>::name), []
    {
        using S = typename Tr<E>::Sample;
        for (int F : {1, 64, 65, 1000})
            for (std::string ct : {"int8", "int16", "int32"})
            {
                Cfg c; c.clauses = 4; c.ctype = ct; c.weighted = F > 1; c.thr = 3;
                if constexpr (Tr<E>::cls)
                {
                    Oom<E> q(c);
                    auto X = mk<S>(std::vector<ivec>{ivec(F, 0), ivec(F, 1)});
                    for (int k = 16; k <= 31; ++k)
                        for (int d : {-2, -1, 0, 1})
                        {
                            long const L = (1l << k) / 4 + d; if (L > INT_MAX / 4) continue;
                            for (size_t i = 0; i < q.sit.size(); ++i)
                                for (bool by_target : {false, true})
                                {
                                    if (i && i + 1 < q.sit.size()) continue;
                                    note("%s %s: fit of F=%d with %ld labels", Tr<E>::name, q.sit[i].first.c_str(), F, L);
                                    E e(*q.sit[i].second); auto const was = full(*q.sit[i].second);
                                    size_t const need = 4ull * L * std::max<size_t>(F * (ct == "int8" ? 1 : ct == "int16" ? 2 : 4), 1);
                                    if (need <= 64u << 20) continue;
                                    bool threw = false; T::status_message_t s{T::S_OK, ""};
                                    g_from = g_to = 0; g_limit = 64u << 20;
                                    try { s = guarded([&]{ return do_fit(e, X, by_target ? ivec{0, (int)L - 1} : ivec{0, 1}, by_target ? -1 : (int)L, 0); }); }
                                    catch (std::bad_alloc const &) { threw = true; }
                                    g_limit = SIZE_MAX;
                                    CHECK(threw || s.first != T::S_OK, "%s: fitted although there is no memory for it", sh()->w[me()].note);
                                    q.unchanged(e, was);
                                    transitions(); traces();
                                }
                        }
                }
                else for (int k = 16; k <= 31; ++k)
                {
                    c.clauses = (int)((1ll << k) - 2); if (c.clauses % 2) continue;
                    size_t const need = (size_t)c.clauses * F * (ct == "int8" ? 1 : ct == "int16" ? 2 : 4);
                    if (need <= 64u << 20) continue;
                    note("%s: fit of F=%d with %d clauses", Tr<E>::name, F, c.clauses);
                    E e = make<E>(c); auto const was = full(*e.clone_state());
                    auto X = mk<S>(std::vector<ivec>{ivec(F, 0), ivec(F, 1)});
                    bool threw = false; T::status_message_t s{T::S_OK, ""};
                    g_from = g_to = 0; g_limit = 64u << 20;
                    try { s = guarded([&]{ return do_fit(e, X, ivec{0, 1}, 0, 0); }); }
                    catch (std::bad_alloc const &) { threw = true; }
                    g_limit = SIZE_MAX;
                    CHECK(threw || s.first != T::S_OK, "%s: fitted although there is no memory for it", sh()->w[me()].note);
                    auto const d = full(*e.clone_state()).diff(was);
                    CHECK(d.empty(), "%s: the estimator was changed: %s", sh()->w[me()].note, d.c_str());
                    bool refused = e.predict(X).isLeft;
                    CHECK(refused, "%s: predicts afterwards", sh()->w[me()].note);
                    transitions(); traces();
                }
            }
    });
}
void setup()
{
    oom::spare = to_spare;
    for (auto n : {"allocations of the json library, not failed", "interrupted trainings that had begun"}) count(n, 0);    // allocates the first time, too
    { void * at[8]; backtrace(at, 8); }          // it allocates the first time
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        add(fmt("%s/creation", Tr<E>::name), []{ creation<E>(); });
        huge<E>();
        for (auto & [n, c] : life_cfgs(Tr<E>::cls))
        {
            if (n == "plain" || n == "boxmuller" || n == "int32" || thorough()) scenarios<E>(n, c);
            if (n == "weighted") { Cfg d = c; d.verbose = true; d.jobs = 2; scenarios<E>("weighted verbose", d); }
        }
    });
}
