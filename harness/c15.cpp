// C15: parameters are validated, defaulted and recorded exactly.  For each estimator and each way of
// creating it (keyword-like arguments in many orders and passing modes, JSON documents), all values of
// every parameter, all pairs of values of every two parameters, all products over reduced domains and
// all one-byte edits of JSON documents are compared with the documented domains and defaults.
#include "c15.hpp"
#include <cfloat>
#include <thread>
using namespace vf;

bool set_value(P15 & p, int f, int k, bool cls, bool reduced)
{
    constexpr int MX = std::numeric_limits<int>::max(), MN = std::numeric_limits<int>::min();
    static std::vector<int> const I{1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17, 20, 32, 48, 64, 100, 127, 128, 129, 255, 256, 1000, 32767, 32768, 65536, 1 << 30, MX - 3, MX - 1, MX, 0, -1, -2, -3, -4, -8, -16, -128, -65536, MN + 1, MN};
    static std::vector<int> const Ir{1, 2, 4, 16, 128, MX - 3, MX, 0, -1, -4, MN};
    float const nan = std::numeric_limits<float>::quiet_NaN(), inf = std::numeric_limits<float>::infinity();
    static std::vector<float> const S{1.f, std::nextafter(1.f, 2.f), std::nextafter(1.f, 0.f), 0.999f, 1.5f, 2.f, 3.9f, 27.f, 1e6f, FLT_MAX, 0.f, -0.f, 0.5f, -1.f, -FLT_MAX, FLT_MIN, 1e-40f, nan, inf, -inf};
    static std::vector<float> const Sr{1.f, 1.25f, FLT_MAX, std::nextafter(1.f, 0.f), 0.f, -2.f, nan, inf};
    static std::vector<float> const C{0.f, 0.125f, 0.5f, 1.f, 2.5f, -1.f, 1e-40f, FLT_MAX, -FLT_MAX};
    static std::vector<std::string> const CT{"auto", "int8", "int16", "int32", "", "int64", "int", "INT8", "Auto", "auto ", " auto", "int8x", "int1", "uint8", "int3", "int322"};
    static std::vector<std::string> const LF{"MSE", "MAE", "L1", "L2", "L1+2", "berHu", "", "mse", "L3", "L", "L1+", "L1+2 ", "BERHU", "berhu", "MSEE", "auto"};
    static std::vector<unsigned> const SD{0u, 1u, 42u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
    auto pick = [&](auto const & v, auto & dst) { if (k >= (int)v.size()) return false; dst = v[k]; return true; };
    auto flag = [&](bool & dst) { if (k > 1) return false; dst = k; return true; };
    auto const & ints = reduced ? Ir : I;
    switch (f)
    {
    case F_CLAUSES: return pick(ints, p.clauses); case F_N: return pick(ints, p.N); case F_THR: return pick(ints, p.thr);
    case F_MAXW: return pick(ints, p.maxw); case F_JOBS: return pick(ints, p.jobs);
    case F_TILE: { static std::vector<int> const t{16, 32, 64, 128, 8, 15, 17, 33, 63, 65, 256, 0, -16, 1}; if (!reduced) { if (k < (int)I.size()) { p.tile = I[k]; return true; } k -= (int)I.size(); } return pick(t, p.tile); }
    case F_S: return pick(reduced ? Sr : S, p.s);
    case F_C1: return pick(C, p.C1);
    case F_CTYPE: return pick(CT, p.ctype); case F_LOSS: return pick(LF, p.loss); case F_SEED: return pick(SD, p.seed);
    case F_WEIGHTED: return flag(p.weighted); case F_BOOST: return flag(p.boost); case F_VERBOSE: return flag(p.verbose); default: return flag(p.bm);
    }
}

static bool is_none(T::param_value_t const & v) { return std::holds_alternative<T::none_type>(v); }
std::string compare15(bool cls, T::params_t const & r, P15 const & p, bool seed_given, bool whole_map)
{
    auto bad = [&](int f, std::string want)
    {
        auto it = r.find(key15(cls, f));
        return std::string(key15(cls, f)) + " recorded as " + (it == r.end() ? "nothing" : pkey({*it})) + " instead of " + want;
    };
    auto get = [&](int f, auto const & want) -> std::string
    {
        using V = std::decay_t<decltype(want)>;
        auto it = r.find(key15(cls, f));
        if (it == r.end() || !std::holds_alternative<V>(it->second)) return bad(f, "a value of its type");
        auto const & got = std::get<V>(it->second);
        if constexpr (std::is_same_v<V, float>) { if (memcmp(&got, &want, sizeof got)) return bad(f, fmt("%.9g", want)); }
        else if constexpr (std::is_same_v<V, std::string>) { if (got != want) return bad(f, want); }
        else if (got != want) return bad(f, std::to_string(want));
        return "";
    };
    int const procs = std::max(1u, std::thread::hardware_concurrency());
    std::vector<std::string> v{get(F_CLAUSES, p.clauses), get(F_N, p.N), get(F_S, p.s), get(F_THR, p.thr), get(F_WEIGHTED, p.weighted), get(F_MAXW, p.maxw),
        get(F_BOOST, (int)p.boost), get(F_JOBS, p.jobs == -1 ? procs : p.jobs), get(F_VERBOSE, p.verbose), get(F_CTYPE, p.ctype), get(F_TILE, p.tile)};
    if (!cls) { v.push_back(get(F_LOSS, p.loss)); v.push_back(get(F_C1, p.C1)); v.push_back(get(F_BM, p.bm)); }
    auto it = r.find("random_state");
    if (seed_given) v.push_back(get(F_SEED, p.seed));
    else if (it == r.end() || !std::holds_alternative<T::seed_type>(it->second)) v.push_back("no random seed was recorded");
    for (auto & s : v) if (!s.empty()) return s;
    if (whole_map)
        for (auto & [k, x] : r)
        {
            bool known = false;
            for (int f = 0; f < nfields(cls); ++f) if (k == key15(cls, f)) known = true;
            if (!known && !((k == "number_of_labels" || k == "number_of_features") && is_none(x))) return "unexpected parameter " + pkey({{k, x}});
        }
    return "";
}

static std::string showp(bool cls, P15 const & p) { std::string s; for (int f = 0; f < nfields(cls); ++f) s += std::string(f ? " " : "") + key15(cls, f) + "=" + jval(p, f); return s; }

static void expect(Est15 const & e, Result const & r, P15 const & p, bool seed_given, std::string const & how)
{
    bool const want = valid15(e.cls, p);
    traces();
    CHECK(!r.isLeft == want, "%s %s was %s, status %d %s: %s", e.name.c_str(), how.c_str(), r.isLeft ? "refused" : "created", r.isLeft ? (int)r.leftValue.first : 0, r.isLeft ? r.leftValue.second.c_str() : "", showp(e.cls, p).c_str());
    if (!want) { CHECK(r.leftValue.first != T::S_OK, "%s %s refused with status OK", e.name.c_str(), how.c_str()); return; }
    auto c = compare15(e.cls, r.rightValue, p, seed_given, true);
    CHECK(c.empty(), "%s %s: %s", e.name.c_str(), how.c_str(), c.c_str());
}
static void both(Est15 const & e, P15 const & p, Seen & seen, int kind = -1)
{
    seen.insert(showp(e.cls, p));
    note("%s", showp(e.cls, p).c_str());
    for (int k = 0; k < 3; ++k) if (kind < 0 || kind == k) expect(e, e.args_all(p, k), p, true, k == 0 ? "from temporaries" : k == 1 ? "from variables" : "from constants");
    if (jsonable(p.s) && jsonable(p.C1))
    {
        std::vector<int> all(nfields(e.cls)); std::iota(all.begin(), all.end(), 0);
        expect(e, e.json(jdoc(e.cls, p, all)), p, true, "from json");
    }
}
static P15 base15(bool cls)
{
    P15 p{8, 7, 1.5f, 9, cls, 11, true, 2, true, "int16", 32, 77, "L1+2", 0.25f, true};
    return p;
}

static void single(Est15 const & e)
{
    Seen seen;
    for (auto b : {base15(e.cls), defaults15(e.cls)})
        for (int f = 0; f < nfields(e.cls); ++f)
            for (int k = 0; ; ++k)
            {
                P15 p = b;
                if (!set_value(p, f, k, e.cls, false)) break;
                both(e, p, seen);
                // JSON with this parameter alone
                if (jsonable(p.s) && jsonable(p.C1))
                {
                    P15 q = defaults15(e.cls); set_value(q, f, k, e.cls, false);
                    expect(e, e.json(jdoc(e.cls, q, {f})), q, f == F_SEED, "from json with one key");
                }
            }
}
// every pair of parameters, all pairs of values
static void pairs15(Est15 const & e, int f)
{
    Seen seen; long n = 0;
    for (int g = 0; g < nfields(e.cls); ++g)
    {
        if (g == f) continue;
        for (int k = 0; ; ++k)
        {
            P15 p = base15(e.cls);
            if (!set_value(p, f, k, e.cls, true)) break;
            for (int m = 0; ; ++m)
            {
                P15 q = p;
                if (!set_value(q, g, m, e.cls, true)) break;
                seen.insert(showp(e.cls, q));
                note("%s", showp(e.cls, q).c_str());
                expect(e, e.args_all(q, (k + m) % 3), q, true, "from arguments");
                if (jsonable(q.s) && jsonable(q.C1)) expect(e, e.json(jdoc(e.cls, q, g < f ? std::vector<int>{g, f} : std::vector<int>{f, g})), [&]{ P15 d = defaults15(e.cls); set_value(d, f, k, e.cls, true); set_value(d, g, m, e.cls, true); return d; }(), f == F_SEED || g == F_SEED, "from json with two keys");
                ++n;
            }
        }
    }
    count("pairs of values", n);
}
// which arguments are given, and in which order
static void orders(Est15 const & e)
{
    Seen seen; long n = 0;
    for (auto & [fields, call] : e.args_lists)
    {
        for (int variant = 0; variant < 3; ++variant)
        {
            P15 given = base15(e.cls);
            if (variant == 1) { given = P15{4, 1, 1.f, 1, !e.cls, 1, false, 1, false, "int8", 128, 0, "berHu", 2.f, false}; }
            if (variant == 2) { given.N = 0; given.tile = 17; given.ctype = "int64"; given.clauses = 7; given.jobs = 0; given.thr = 0; given.maxw = 0; given.s = .5f; given.loss = "L3"; }
            P15 want = defaults15(e.cls); bool seed = false; std::string l;
            for (int f : fields)
            {
                l += std::string(" ") + key15(e.cls, f);
                switch (f)
                {
                case F_CLAUSES: want.clauses = given.clauses; break; case F_N: want.N = given.N; break; case F_S: want.s = given.s; break; case F_THR: want.thr = given.thr; break;
                case F_WEIGHTED: want.weighted = given.weighted; break; case F_MAXW: want.maxw = given.maxw; break; case F_BOOST: want.boost = given.boost; break; case F_JOBS: want.jobs = given.jobs; break;
                case F_VERBOSE: want.verbose = given.verbose; break; case F_CTYPE: want.ctype = given.ctype; break; case F_TILE: want.tile = given.tile; break; case F_SEED: want.seed = given.seed; seed = true; break;
                case F_LOSS: want.loss = given.loss; break; case F_C1: want.C1 = given.C1; break; case F_BM: want.bm = given.bm; break;
                }
            }
            note("arguments:%s", l.c_str());
            seen.insert(l + fmt("/%d", variant));
            expect(e, call(given), want, seed, "from the arguments" + l);
            if (fields.size()) expect(e, e.json(jdoc(e.cls, given, fields)), want, seed, "from json with" + l);
            ++n;
        }
    }
    // with no seed, estimators get seeds of their own
    std::set<std::string> s;
    for (int i = 0; i < 4; ++i) { auto r = e.json("{}"); CHECK(!r.isLeft, "an empty json object was refused"); s.insert(pkey({{"random_state", r.rightValue.at("random_state")}})); }
    CHECK(s.size() > 1, "four estimators without a seed all got the seed %s", s.begin()->c_str());
    count("argument lists", n);
}
// JSON: wrong types, numbers out of range, unknown keys, other documents
static void json_types(Est15 const & e)
{
    Seen seen; long n = 0;
    char const * const intvals[] = {"2147483648", "-2147483649", "4294967296", "4294967297", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e400", "-1e400", "1.5", "\"4\"", "null", "[4]", "{}", "{\"a\": 4}", "[]", "\"\"", "NaN", "+4", "04", "4.", ".4", "0x4"};
    char const * const realvals[] = {"\"2\"", "null", "true", "[2]", "{}", "1e39", "-1e39", "1e400", "NaN", "Infinity", "\"inf\""};
    char const * const boolvals[] = {"0", "1", "2", "-1", "0.0", "null", "\"true\"", "\"\"", "[true]", "{}", "True"};
    char const * const strvals[] = {"0", "1.5", "null", "true", "[\"auto\"]", "{}", "auto", "\"auto", "[\"MSE\"]"};
    auto refuse = [&](std::string const & doc)
    {
        note("json %s", doc.c_str());
        seen.insert(doc); ++n;
        auto r = e.json(doc);
        traces();
        CHECK(r.isLeft && r.leftValue.first != T::S_OK, "%s was created from the json %s", e.name.c_str(), doc.c_str());
    };
    for (int f = 0; f < nfields(e.cls); ++f)
    {
        auto all = [&](auto const & vals, bool no_bool)
        {
            for (auto v : vals)
            {
                if (f == F_BOOST && (std::string(v) == "true")) continue;
                if (f == F_SEED && (std::string(v) == "2147483648" || std::string(v) == "null")) continue;      // a seed is unsigned; null means random
                refuse(std::string("{\"") + key15(e.cls, f) + "\": " + v + "}");
                P15 p = base15(e.cls); std::vector<int> o; for (int g = 0; g < nfields(e.cls); ++g) if (g != f) o.push_back(g);
                auto d = jdoc(e.cls, p, o); d.pop_back();
                refuse(d + ", \"" + key15(e.cls, f) + "\": " + v + "}");
            }
            if (no_bool) for (auto v : {"true", "false"}) if (f != F_BOOST) refuse(std::string("{\"") + key15(e.cls, f) + "\": " + v + "}");
        };
        switch (f)
        {
        case F_S: case F_C1: all(realvals, false); break;
        case F_WEIGHTED: case F_VERBOSE: case F_BM: all(boolvals, false); break;
        case F_CTYPE: case F_LOSS: all(strvals, false); break;
        default: all(intvals, true);
        }
        std::string k = key15(e.cls, f);
        for (auto w : {k + "x", k.substr(0, k.size() - 1), std::string(1, (char)toupper(k[0])) + k.substr(1), " " + k})
            if (w.size() && w != k && !(w == "S" && k == "S")) refuse("{\"" + w + "\": " + jval(defaults15(e.cls), f) + "}");
    }
    refuse("{\"boost_true_positive_feedback\": 2}"); refuse("{\"boost_true_positive_feedback\": -1}"); refuse("{\"random_state\": -1}"); refuse("{\"random_state\": 4294967296}");
    for (auto v : {"true", "false"})
    {
        auto r = e.json(fmt("{\"boost_true_positive_feedback\": %s}", v)); P15 p = defaults15(e.cls); p.boost = v[0] == 't';
        expect(e, r, p, false, "from json with a boolean boost flag");
    }
    {
        auto r = e.json("{\"random_state\": null}"); expect(e, r, defaults15(e.cls), false, "from json with a null seed");
    }
    for (auto d : {"", " ", "null", "true", "1", "\"\"", "[]", "[{}]", "{", "}", "{}}", "{} {}", "{,}", "{\"s\"}", "{\"s\":}", "{\"s\": 2,}", "{s: 2}", "{'s': 2}", "{\"\": 1}", "{\"number_of_labels\": 3}", "{\"number_of_features\": 3}", "\xff\xfe", "{\"s\": \"\xff\"}", "{\"counting_type\": \"\\ud800\"}"}) refuse(d);
    refuse(std::string("\0", 1));
    refuse(std::string(20000, '['));
    for (auto d : {"{}", " {} ", "\n{\t}\r\n"}) expect(e, e.json(d), defaults15(e.cls), false, "from an empty json object");
    // white space and the order of keys do not matter; of a repeated key, one of the values counts
    {
        P15 p = base15(e.cls); std::vector<int> o(nfields(e.cls)); std::iota(o.begin(), o.end(), 0);
        for (int k = 0; k < (int)o.size(); ++k) { std::rotate(o.begin(), o.begin() + 1, o.end()); expect(e, e.json(jdoc(e.cls, p, o)), p, true, "from json, other order"); std::reverse(o.begin(), o.end()); expect(e, e.json(jdoc(e.cls, p, o)), p, true, "from json, other order"); std::reverse(o.begin(), o.end()); }
        auto d = jdoc(e.cls, p, o); std::string spread;
        for (char ch : d) { spread += ch; if (strchr("{},:", ch)) spread += " \n\t"; }
        expect(e, e.json(spread), p, true, "from json with white space");
    }
    count("json documents", n);
}
// all one-byte edits and truncations of a document: never an exception, and what is created is valid
static void json_edits(Est15 const & e, int part, int parts)
{
    Seen seen; long n = 0, created = 0;
    P15 p = base15(e.cls); std::vector<int> o(nfields(e.cls)); std::iota(o.begin(), o.end(), 0);
    auto const doc = jdoc(e.cls, p, o);
    auto probe = [&](std::string const & d)
    {
        note("json %s", d.c_str());
        ++n;
        auto r = e.json(d);
        traces();
        if (r.isLeft) { CHECK(r.leftValue.first != T::S_OK, "refused with status OK: %s", d.c_str()); return; }
        ++created;
        auto & m = r.rightValue; P15 q;
        auto num = [&](int f, auto & dst) { auto it = m.find(key15(e.cls, f)); CHECK(it != m.end() && std::holds_alternative<std::decay_t<decltype(dst)>>(it->second), "created from %s without a proper %s", d.c_str(), key15(e.cls, f)); dst = std::get<std::decay_t<decltype(dst)>>(it->second); };
        num(F_CLAUSES, q.clauses); num(F_N, q.N); num(F_S, q.s); num(F_THR, q.thr); num(F_WEIGHTED, q.weighted); num(F_MAXW, q.maxw); num(F_JOBS, q.jobs); num(F_VERBOSE, q.verbose); num(F_CTYPE, q.ctype); num(F_TILE, q.tile); num(F_SEED, q.seed);
        if (!e.cls) { num(F_LOSS, q.loss); num(F_C1, q.C1); num(F_BM, q.bm); }
        CHECK(valid15(e.cls, q) && q.jobs >= 1, "%s was created from %s with invalid parameters %s", e.name.c_str(), d.c_str(), showp(e.cls, q).c_str());
        seen.insert(showp(e.cls, q));
    };
    std::string const bytes("\0\x01\x09\n \"',-.0123456789:;E[\\]_aeltfnrsux{|}~\x7f\x80\xc3\xff", 52);
    for (size_t i = part; i < doc.size(); i += parts)
    {
        probe(doc.substr(0, i));
        { auto d = doc; d.erase(i, 1); probe(d); }
        for (size_t b = 0; b < bytes.size(); ++b)
        {
            { auto d = doc; d[i] = bytes[b]; probe(d); }
            if (thorough() || b % 3 == i % 3) { auto d = doc; d.insert(i, 1, bytes[b]); probe(d); }
        }
        if (thorough())
            for (size_t j = i + 1; j < doc.size(); j += 1) { auto d = doc; std::swap(d[i], d[j]); probe(d); d = doc; d.erase(j, 1); d.erase(i, 1); probe(d); }
    }
    count("json edits", n); count("json edits that still create an estimator", created);
}
// the same parameters given either way make the same machine
static void same_machine(Est15 const & e)
{
    Seen seen; long n = 0;
    for (int w = 0; w < 2; ++w) for (int b = 0; b < 2; ++b) for (auto ct : {"auto", "int8", "int16", "int32"}) for (int tile : {16, 128}) for (int N : {1, 2, 127, 200}) for (float s : {1.f, 3.9f})
        for (auto lf : {"MSE", "MAE", "L1+2", "berHu"}) for (int bm = 0; bm < 2; ++bm)
        {
            if (e.cls && (std::string(lf) != "MSE" || bm)) continue;
            P15 p = base15(e.cls); p.weighted = w; p.boost = b; p.ctype = ct; p.tile = tile; p.N = N; p.s = s; p.loss = lf; p.bm = bm; p.verbose = false; p.clauses = 4; p.jobs = 1;
            std::vector<int> all(nfields(e.cls)); std::iota(all.begin(), all.end(), 0);
            note("%s", showp(e.cls, p).c_str());
            auto a = e.trained_args(p), j = e.trained_json(jdoc(e.cls, p, all));
            transitions(2); traces();
            CHECK(a == j, "%s trained after creation from arguments and from json differ: %s", e.name.c_str(), showp(e.cls, p).c_str());
            seen.insert(a); ++n;
        }
    count("machines compared", n);
}
// defaults and order of the arguments of fit and partial_fit
template<class E> void fit_args()
{
    Seen seen;
    Cfg c; c.N = 3;
    bool const cls = Tr<E>::cls;
    auto d = make_set("A", 2, 3, 3, cls, c.thr);
    auto X = mk<typename Tr<E>::Sample>(d.X);
    auto st = [](E & e){ auto k = full(*e.clone_state()).key(); return k; };
    for (unsigned ep : {0u, 1u, 2u, 100u})
        for (int L : {-1, 0, 2, 3, 7})
        {
            if (!cls && L != 2) continue;
            E a = make<E>(c), p = make<E>(c);
            ok(do_fit(a, X, d.y, L, ep), "fit"); ok(do_pfit(p, X, d.y, L, ep), "partial_fit");
            auto const want = st(a);
            seen.insert(want); transitions(4);
            std::vector<std::pair<char const *, std::string>> got{{"partial_fit", st(p)}};
            auto one = [&](char const * n, auto f) { E e = make<E>(c); ok(f(e), n); got.push_back({n, st(e)}); };
            T::number_of_epochs_t ne{ep}; T::max_number_of_labels_t const nl{L};
            if constexpr (Tr<E>::cls)
            {
                one("fit(epochs, labels)", [&](E & e){ return e.fit(X, d.y, ne, nl); });
                one("fit(labels, epochs)", [&](E & e){ return e.fit(X, d.y, T::max_number_of_labels_t{L}, ne); });
                one("partial_fit(epochs, labels)", [&](E & e){ return e.partial_fit(X, d.y, T::number_of_epochs_t{ep}, nl); });
                if (ep == 100) { one("fit(labels)", [&](E & e){ return e.fit(X, d.y, nl); }); one("partial_fit(labels)", [&](E & e){ return e.partial_fit(X, d.y, T::max_number_of_labels_t{L}); }); }
            }
            else if (ep == 100) { one("fit()", [&](E & e){ return e.fit(X, d.y); }); one("partial_fit()", [&](E & e){ return e.partial_fit(X, d.y); }); }
            for (auto & [n, s] : got) { CHECK(s == want, "%s: %s with %u epochs and %d labels differs from fit", Tr<E>::name, n, ep, L); traces(); }
        }
}

void setup()
{
    for (auto mk15 : {est15_0, est15_1, est15_2, est15_3})
    {
        auto e = std::make_shared<Est15>(mk15());
        add(e->name + "/single", [=]{ single(*e); });
        for (int f = 0; f < nfields(e->cls); ++f) add(fmt("%s/pairs with %s", e->name.c_str(), key15(e->cls, f)), [=]{ pairs15(*e, f); });
        add(e->name + "/orders", [=]{ orders(*e); });
        add(e->name + "/json", [=]{ json_types(*e); });
        int const parts = tiered(2, 12);
        for (int k = 0; k < parts; ++k) add(fmt("%s/edits%d", e->name.c_str(), k), [=]{ json_edits(*e, k, parts); });
        add(e->name + "/machines", [=]{ same_machine(*e); });
    }
    for_all_estimators([](auto * p) { using E = std::decay_t<decltype(*p)>; add(std::string(Tr<E>::name) + "/fit arguments", []{ fit_args<E>(); }); });
}
