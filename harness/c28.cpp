// C28: a state document that was cut short or has lost, gained or garbled parts is refused, and the
// receiver is what it was before.  All the ways of damaging a document once are enumerated.
#include "life.hpp"
#include "tsetlini_state_json.hpp"
using namespace vf;

// Where the values of a document are
struct Node
{
    char kind = 0;                       // '{', '[' or a scalar
    size_t from = 0, to = 0;             // the value
    size_t mfrom = 0;                    // the member or element it is: from its name on
    std::string path;
    std::vector<Node> kids;
};
struct Scan
{
    std::string const & t; size_t i = 0;
    void ws() { while (i < t.size() && isspace((unsigned char)t[i])) ++i; }
    std::string str()
    {
        size_t const b = i++;
        while (i < t.size() && t[i] != '"') i += t[i] == '\\' ? 2 : 1;
        ++i;
        return t.substr(b + 1, i - b - 2);
    }
    Node value(std::string path)
    {
        Node n; ws(); n.from = n.mfrom = i; n.path = path; n.kind = t[i];
        if (t[i] == '{' || t[i] == '[')
        {
            char const close = t[i] == '{' ? '}' : ']';
            ++i; ws();
            for (int k = 0; t[i] != close; ++k)
            {
                ws();
                size_t const m = i; std::string name = std::to_string(k);
                if (close == '}') { name = str(); ws(); ++i; }
                n.kids.push_back(value(path + "/" + name));
                n.kids.back().mfrom = m;
                ws();
                if (t[i] == ',') { ++i; ws(); }
                CHECK(i < t.size(), "the document does not end");
            }
            ++i;
        }
        else if (t[i] == '"') str();
        else while (i < t.size() && !strchr(",]}", t[i])) ++i;
        n.to = i;
        return n;
    }
};
struct Damage { std::string what, text; bool bulk; };

static size_t stride(size_t n, size_t quick, size_t deep) { return n <= 40 ? 1 : tiered(quick, deep); }
// one parameter may be missing, or may be anything: that is for the parameters' own validation
static bool optional(std::string const & path) { return path == "/algo" || path.rfind("/params/", 0) == 0; }

static void damages(std::string const & t, Node const & n, std::function<void(Damage const &)> f)
{
    size_t const k = n.kids.size(), st = stride(k, 613, 23);
    bool const bulk = k > 40;
    for (size_t c = 0; c < k; ++c)
    {
        if (c >= 3 && c + 3 < k && c % st) continue;
        auto const & q = n.kids[c];
        if (optional(q.path)) continue;
        std::string const head = t.substr(0, q.mfrom), tail = t.substr(q.to), whole = t.substr(q.mfrom, q.to - q.mfrom), name = t.substr(q.mfrom, q.from - q.mfrom);
        // without it, and without one comma
        {
            auto h = head, l = tail;
            if (c + 1 < k) l = t.substr(n.kids[c + 1].mfrom);
            else if (c) h = t.substr(0, n.kids[c - 1].to);
            f({"without " + q.path, h + l, bulk});
        }
        if (n.kind == '[') f({"with two of " + q.path, head + whole + "," + whole + tail, bulk});
        f({"with null for " + q.path, head + name + "null" + tail, bulk});
        f({"with text for " + q.path, head + name + "\"x\"" + tail, bulk});
        damages(t, q, f);
    }
}
static void cuts(std::string const & t, Node const & root, std::function<void(Damage const &)> f)
{
    // everywhere, but inside the long arrays at their ends and at every so many bytes
    std::vector<std::pair<size_t, size_t>> sparse;
    std::function<void(Node const &)> walk = [&](Node const & n)
    {
        if (n.kind == '[' && n.to - n.from > 400) sparse.push_back({n.from + 60, n.to - 60});
        else for (auto & q : n.kids) walk(q);
    };
    walk(root);
    size_t s = 0;
    for (size_t p = 0; p < t.size(); ++p)
    {
        while (s < sparse.size() && p >= sparse[s].second) ++s;
        bool const in = s < sparse.size() && p >= sparse[s].first;
        if (in && p % tiered(1009, 53)) continue;
        f({fmt("cut after %zu of %zu bytes", p, t.size()), t.substr(0, p), in});
    }
}

template<class E> struct Docs
{
    using State = typename Tr<E>::State;
    std::vector<State> receivers;
    std::vector<FullState> was;
    std::vector<State> copies;
    Seen seen;
    Docs()
    {
        { Cfg c; c.clauses = 12; c.N = 40000; c.weighted = true; c.s = 3.25f; c.seed = 5; c.thr = 9; receivers.push_back(fitted_state<E>(c, 70, 3)); }
        { Cfg c; c.clauses = 8; c.seed = 99; receivers.push_back(*make<E>(c).clone_state()); }
        for (auto & r : receivers) { was.push_back(full(r)); copies.push_back(r); seen.insert(was.back().key()); }
    }
    void refused(Damage const & d)
    {
        for (size_t i = 0; i < (d.bulk ? 1 : receivers.size()); ++i)
        {
            note("%s, receiver %zu", d.what.c_str(), i);
            bool threw = false;
            try { T::from_json_string(receivers[i], d.text); }
            catch (std::exception const &) { threw = true; }
            transitions();
            CHECK(threw, "a document %s is accepted", d.what.c_str());
            auto const now = full(receivers[i]);
            CHECK(now == was[i], "refusing a document %s changed receiver %zu: %s", d.what.c_str(), i, now.diff(was[i]).c_str());
            CHECK(receivers[i] == copies[i], "refusing a document %s changed receiver %zu", d.what.c_str(), i);
        }
    }
    // refusals leave nothing behind: the intact document restores, and everything works
    void intact(State const & st, std::string const & js)
    {
        auto const want = full(st);
        for (auto & r : receivers)
        {
            T::from_json_string(r, js); transitions(); traces();
            CHECK(full(r) == want && r == st, "the intact document does not restore after refusals: %s", full(r).diff(want).c_str());
            if (!ta_shape(st).first) continue;
            E e(r), e0(st);
            auto const X = mk<typename Tr<E>::Sample>(std::vector<ivec>{ivec(ta_shape(st).second, 0), ivec(ta_shape(st).second, 1)});
            CHECK(to_ivec(take(e.predict(X))) == to_ivec(take(e0.predict(X))), "predictions differ after refusals");
        }
    }
};

template<class E> std::vector<std::pair<std::string, typename Tr<E>::State>> documents()
{
    std::vector<std::pair<std::string, typename Tr<E>::State>> r;
    Cfg c; c.clauses = 4; c.N = 5; c.thr = 5;
    r.push_back({"unfitted", *make<E>(c).clone_state()});
    auto trained = [&](Cfg const & c, int F, int L)
    {
        auto e = make<E>(c);
        auto d = make_set("D", F, L, 4, Tr<E>::cls, c.thr);
        ok(do_fit(e, mk<typename Tr<E>::Sample>(d.X), d.y, L, 2), "fit");
        return typename Tr<E>::State(*e.clone_state());
    };
    r.push_back({"fitted", trained(c, 3, 2)});
    { auto d = c; d.weighted = true; r.push_back({"weighted", trained(d, 1, 3)}); }
    { auto d = c; d.N = 300; d.weighted = true; r.push_back({"wide", trained(d, 65, 2)}); }
    { auto d = c; d.N = 70000; d.clauses = Tr<E>::cls ? 4 : 2; r.push_back({"least", trained(d, 1, 2)}); }
    return r;
}

template<class E> void damaged(int which, bool cut)
{
    auto const [name, st] = documents<E>()[which];
    std::string const js = T::to_json_string(st);
    Scan s{js}; Node const root = s.value("");
    s.ws();
    CHECK(root.kind == '{' && s.i == js.size(), "what is saved is not one JSON object");
    Docs<E> docs;
    auto f = [&](Damage const & d){ docs.refused(d); };
    if (cut) cuts(js, root, f);
    else
    {
        damages(js, root, f);
        for (auto & [w, t] : std::vector<std::pair<std::string, std::string>>{{"followed by x", js + "x"}, {"written twice", js + js}, {"followed by }", js + "}"}, {"preceded by x", "x" + js}, {"of nothing", ""}, {"of a blank", " "},
            {"which is null", "null"}, {"which is {}", "{}"}, {"which is []", "[]"}, {"which is an array of it", "[" + js + "]"}, {"which is 1", "1"}}) f({w, t, false});
    }
    docs.intact(st, js);
}
// documents of classifiers and of regressors are not interchangeable, nor is the mask of bit estimators dispensable
template<class E> void foreign()
{
    Docs<E> docs;
    for_all_estimators([&](auto * p)
    {
        using O = std::decay_t<decltype(*p)>;
        if (Tr<O>::cls == Tr<E>::cls && (Tr<O>::bit || !Tr<E>::bit)) return;
        for (auto const & [name, st] : documents<O>()) docs.refused({std::string("of a ") + name + " " + Tr<O>::name, T::to_json_string(st), false});
    });
    for (auto const & [name, st] : documents<E>()) docs.intact(st, T::to_json_string(st));
}

void setup()
{
    for_all_estimators([](auto * p)
    {
        using E = std::decay_t<decltype(*p)>;
        std::string const n = Tr<E>::name;
        char const * const names[] = {"unfitted", "fitted", "weighted", "wide", "least"};
        for (int d = 0; d < 5; ++d) for (bool cut : {false, true}) add(fmt("%s/%s/%s", n.c_str(), names[d], cut ? "cut" : "damaged"), [=](){ damaged<E>(d, cut); });
        add(n + "/foreign", [](){ foreign<E>(); });
    });
}
